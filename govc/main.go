package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type ObOut struct {
	Func   string   `json:"func"`
	Name   string   `json:"name"`
	Props  []string `json:"props"`
	Text   string   `json:"text"`
	Pos    string   `json:"pos"`
	Status string   `json:"status"`
	Detail string   `json:"detail,omitempty"`
}

type FnOut struct {
	Func      string   `json:"func"`
	Error     string   `json:"error,omitempty"`
	Paths     int      `json:"paths"`
	VCs       int      `json:"vcs"`
	Contracts []string `json:"contracts"`
	Inlined   []string `json:"inlined"`
	Externs   []string `json:"externs"`
	Uninterp  []string `json:"uninterpreted"`
	Loops     []string `json:"loops"`
	LoopsFree []string `json:"loops_without_invariant"`
	Support   bool     `json:"support"`
	Props     []string `json:"props"`
}

type Out struct {
	Obligations []ObOut            `json:"obligations"`
	Functions   []FnOut            `json:"functions"`
	Assumed     []string           `json:"assumed_contracts"`
	SpecOK      bool               `json:"spec_ok"`
	SpecDetail  string             `json:"spec_detail,omitempty"`
	SpecCount   int                `json:"spec_lemmas"`
	Probes      int                `json:"probes"`
	Vacuous     []string           `json:"vacuous"`
	Secs        map[string]float64 `json:"seconds"`
	ProbeError  string             `json:"probe_error,omitempty"`
	Fatal       string             `json:"fatal,omitempty"`
}

func main() {
	repo := flag.String("repo", "/repo", "")
	cdir := flag.String("contracts", "/verif/contracts", "")
	sdir := flag.String("spec", "/verif/spec", "")
	out := flag.String("out", "", "output dir")
	prop := flag.String("prop", "", "property filter")
	only := flag.String("func", "", "function regexp")
	dump := flag.String("dump", "", "dump SSA of function")
	baseOut := flag.String("baseline", "", "record what the names in the contracts mean in this code")
	noprobe := flag.Bool("noprobe", false, "")
	threads := flag.Int("threads", 8, "")
	rlimit := flag.Int("rlimit", 30, "")
	flag.Parse()
	t0 := time.Now()
	cfg := &packages.Config{Dir: *repo, Mode: packages.LoadSyntax | packages.NeedModule}
	pkgs, err := packages.Load(cfg, "./snaps", "./match/...", "./internal/colors", "./internal/difflib")
	if err != nil {
		fatal(*out, err.Error())
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			fatal(*out, "load: "+e.Error())
		}
	}
	if ov := intRanges(pkgs); ov != nil {
		cfg.Overlay = ov
		if pkgs, err = packages.Load(cfg, "./snaps", "./match/...", "./internal/colors", "./internal/difflib"); err != nil {
			fatal(*out, err.Error())
		}
		for _, p := range pkgs {
			for _, e := range p.Errors {
				fatal(*out, "load (ranges over integers as counted loops): "+e.Error())
			}
		}
	}
	prog, sp := ssautil.Packages(pkgs, ssa.GlobalDebug)
	prog.Build()
	fns := map[string]*ssa.Function{}
	var collect func(f *ssa.Function)
	collect = func(f *ssa.Function) {
		fns[shortName(f)] = f
		for _, a := range f.AnonFuncs {
			collect(a)
		}
	}
	for _, p := range sp {
		for _, m := range p.Members {
			switch x := m.(type) {
			case *ssa.Function:
				collect(x)
			case *ssa.Type:
				if n, ok := x.Type().(*types.Named); ok && n.TypeParams().Len() > 0 {
					for i := 0; i < n.NumMethods(); i++ {
						if f := prog.FuncValue(n.Method(i)); f != nil {
							collect(f)
						}
					}
					continue
				}
				for _, t := range typeAndPtr(x.Type()) {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f != nil && f.Pkg == p && f.Synthetic == "" {
							collect(f)
						}
					}
				}
			}
		}
	}
	for _, p := range sp {
		for _, n := range sortedKeys(p.Members) {
			if t, ok := p.Members[n].(*ssa.Type); ok {
				if _, isS := t.Type().Underlying().(*types.Struct); isS {
					sortOf(t.Type())
				}
			}
		}
	}
	if *dump != "" {
		for n, f := range fns {
			if regexp.MustCompile(*dump).MatchString(n) {
				fmt.Println("==", n)
				f.WriteTo(os.Stdout)
				for _, a := range f.AnonFuncs {
					a.WriteTo(os.Stdout)
				}
			}
		}
		return
	}
	cs, err := parseContracts(*cdir)
	if err != nil {
		fatal(*out, err.Error())
	}
	if *baseOut != "" {
		b, _ := json.MarshalIndent(makeBaseline(prog, cs, fns), "", " ")
		os.WriteFile(*baseOut, append(b, '\n'), 0o644)
		return
	}
	readBaseline(filepath.Join(*cdir, "baseline.json"))
	matchFunctions(cs, fns)
	sliceTo(cs, *prop)
	initContracts(cs)
	spec := loadSpec(*sdir, *prop)
	for _, p := range pkgs {
		for _, im := range p.Types.Imports() {
			for _, n := range im.Scope().Names() {
				if t, ok := im.Scope().Lookup(n).(*types.TypeName); ok && strings.Contains(spec.text, "T_"+pkgShort(im.Path())+"_"+n) {
					sortOf(t.Type())
				}
			}
		}
	}
	secs := map[string]float64{"load": time.Since(t0).Seconds()}
	var frs []*FnResult
	o := &Out{Secs: secs}
	done := map[string]bool{}
	verify := func(n string) {
		c := cs.M[n]
		done[n] = true
		fn := fns[n]
		if fn == nil {
			o.Obligations = append(o.Obligations, ObOut{Func: n, Name: "function-exists", Props: sliceProps(c.allProps()), Text: "the function under contract exists", Status: "failed"})
			return
		}
		fr := &FnResult{Func: n, Ctr: c, Statuses: map[*Oblig]string{}}
		t1 := time.Now()
		e := newExec(prog, cs, c, fn)
		fr.Exec = e
		e.initMode = c.Init
		if len(c.Params) != len(fn.Params) {
			fr.Err = fmt.Sprintf("the contract names %d parameters, the function has %d", len(c.Params), len(fn.Params))
		} else if er := e.verify(); er != nil {
			fr.Err = er.Error()
		}
		fr.Time = time.Since(t1).Seconds()
		if fr.Err != "" {
			o.Obligations = append(o.Obligations, ObOut{Func: n, Name: "within-reach", Props: sliceProps(c.allProps()), Text: "the function is within the verifier's reach", Status: "failed", Detail: fr.Err})
		}
		frs = append(frs, fr)
	}
	for _, n := range cs.Order {
		c := cs.M[n]
		if c.Extern || c.Opaque || c.Inline || (c.Init && *prop != "") || (*only != "" && !regexp.MustCompile(*only).MatchString(n)) || (*prop != "" && !c.concerns(*prop)) {
			continue
		}
		verify(n)
	}
	// the functions these rest on: their frames and lock discipline
	for *prop != "" && *only == "" {
		more := []string{}
		need := map[string]bool{}
		locks := map[string]bool{}
		for _, fr := range frs {
			for n := range fr.Exec.used {
				need[n] = true
			}
			for _, l := range fr.Ctr.Acquires {
				locks[l] = cs.lockHasInv(l)
			}
		}
		for _, n := range cs.Order {
			c := cs.M[n]
			if c.Extern || c.Opaque || c.Inline || done[n] {
				continue
			}
			for _, l := range c.Acquires {
				if locks[l] {
					need[n] = true
				}
			}
			if need[n] && !c.Init {
				more = append(more, n)
			}
		}
		if len(more) == 0 {
			break
		}
		for _, n := range more {
			cs.M[n].Support = cs.M[n].Local && !cs.M[n].concerns(*prop)
			verify(n)
		}
	}
	// what the initialisation establishes, of the globals in use
	for _, n := range cs.Order {
		c := cs.M[n]
		if !c.Init || *prop == "" || *only != "" {
			continue
		}
		var keep []*Clause
		for _, x := range c.Ensures {
			if usedGlobals[x.Name] {
				keep = append(keep, x)
			}
		}
		if c.Ensures = keep; len(keep) > 0 {
			verify(n)
		}
	}
	for n, f := range staticChecks(prog, fns, cs) {
		if *prop != "" {
			if !usedGlobals[strings.TrimPrefix(n, "const:")] {
				continue
			}
			f.Props = sliceProps(f.Props)
		}
		o.Obligations = append(o.Obligations, f)
	}
	secs["symbolic"] = time.Since(t0).Seconds() - secs["load"]
	os.MkdirAll(*out, 0o755)
	// Verus
	bad := map[string]string{}
	tv := time.Now()
	shards := makeShards(frs, *rlimit)
	res := make([]*shardRes, len(shards))
	var wg sync.WaitGroup
	pre := &emitter{lines: map[int]*lineInfo{}}
	writePrelude(pre, spec, frs)
	for i := range shards {
		wg.Add(1)
		go func() {
			defer wg.Done()
			th := max(1, *threads/len(shards))
			res[i] = runShard(filepath.Join(*out, fmt.Sprintf("vc%d.rs", i)), pre, shards[i], i == 0, *rlimit, th)
		}()
	}
	wg.Wait()
	secs["verus"] = time.Since(tv).Seconds()
	secs["shards"] = float64(len(shards))
	for _, r := range res {
		secs["smt"] += r.vo.smt
		for k, v := range r.bad {
			bad[k] = v
		}
		if r.fatal != "" {
			o.Fatal = r.fatal
		}
	}
	status := map[*Oblig]string{}
	detail := map[*Oblig]string{}
	specBad := []string{}
	unknownVC := map[string]string{}
	for _, r := range res {
		for _, d := range r.vo.diags {
			if d.Level != "error" {
				continue
			}
			hit := false
			for _, s := range d.Spans {
				li := r.w.lines[s.LineStart]
				if li == nil {
					continue
				}
				hit = true
				if li.ob != nil && strings.Contains(d.Message, "assert") {
					status[li.ob] = "failed"
					detail[li.ob] = d.Message
					if debug {
						detail[li.ob] += fmt.Sprintf(" (%s#%d)", li.fn.Func, li.vc)
					}
				} else {
					// a hint failed or the resource limit was reached in this VC
					unknownVC[fmt.Sprintf("%s#%d", li.fn.Func, li.vc)] += trunc(d.Rendered, 300)
				}
			}
			if !hit && len(d.Spans) > 0 {
				specBad = append(specBad, trunc(d.Rendered, 600))
			}
		}
	}
	o.SpecOK = len(specBad) == 0
	o.SpecDetail = strings.Join(specBad, "\n")
	o.SpecCount = spec.lemmas
	for _, fr := range frs {
		for i, vc := range fr.Exec.vcs {
			k := fmt.Sprintf("%s#%d", fr.Func, i)
			for _, s := range vc.stmts {
				if s.kind != 'o' || s.ob.Reach {
					continue
				}
				if m, b := bad[k]; b {
					status[s.ob] = "failed"
					detail[s.ob] = "cannot be stated on this code: " + m
				} else if m, b := unknownVC[k]; b && status[s.ob] == "" {
					status[s.ob] = "failed"
					detail[s.ob] = "not discharged: " + m
				} else if status[s.ob] == "" {
					if o.Fatal != "" {
						status[s.ob] = "failed"
						detail[s.ob] = "verifier error"
					} else {
						status[s.ob] = "proved"
					}
				}
			}
		}
		for _, ob := range fr.Exec.obligs {
			if ob.Reach {
				continue
			}
			o.Obligations = append(o.Obligations, ObOut{Func: ob.Fn, Name: ob.Name, Props: ob.Props, Text: ob.Text, Pos: ob.Pos, Status: status[ob], Detail: detail[ob]})
		}
		e := fr.Exec
		o.Functions = append(o.Functions, FnOut{Func: fr.Func, Error: fr.Err, Paths: e.paths, VCs: len(e.vcs), Contracts: sortedKeys(e.used), Inlined: sortedKeys(e.inlined), Externs: sortedKeys(e.externs), Uninterp: sortedKeys(e.uninterp), Loops: uniq(e.loopsSeen), LoopsFree: uniq(e.loopsNoSpec), Props: sliceProps(fr.Ctr.allProps()), Support: fr.Ctr.Support})
	}
	for n, c := range cs.M {
		if c.Extern || c.Opaque {
			for _, f := range o.Functions {
				if has(f.Contracts, n) {
					o.Assumed = append(o.Assumed, n+": "+c.Reason)
					break
				}
			}
		}
	}
	for _, fr := range frs {
		o.Assumed = append(o.Assumed, fr.Ctr.cross()...)
	}
	sort.Strings(o.Assumed)
	if !*noprobe && o.Fatal == "" {
		tp := time.Now()
		failed := map[*Oblig]bool{}
		probes := []probeOb{}
		var wg sync.WaitGroup
		pres := make([]*probeRes, len(shards))
		for i := range shards {
			wg.Add(1)
			go func() {
				defer wg.Done()
				pres[i] = runProbes(filepath.Join(*out, fmt.Sprintf("probe%d.rs", i)), pre, shards[i], bad, max(1, *threads/len(shards)))
			}()
		}
		wg.Wait()
		secs["probe"] = time.Since(tp).Seconds()
		pfatal := false
		for _, r := range pres {
			probes = append(probes, r.probes...)
			for k := range r.failed {
				failed[k] = true
			}
			if r.fatal != "" {
				pfatal = true
				fmt.Println("PROBE RUN FAILED", r.fatal)
				o.ProbeError = r.fatal
			}
		}
		o.Probes = len(probes)
		tot, vac := map[string]int{}, map[string]int{}
		for _, p := range probes {
			tot[p.k]++
			if !failed[p.ob] {
				vac[p.k]++
			}
		}
		for f, n := range tot {
			if vac[f] == n && !pfatal {
				o.Vacuous = append(o.Vacuous, f)
			}
		}
		secs["unreachable_exits"] = 0
		for _, n := range vac {
			secs["unreachable_exits"] += float64(n)
		}
	}
	secs["total"] = time.Since(t0).Seconds()
	b, _ := json.MarshalIndent(o, "", " ")
	os.WriteFile(filepath.Join(*out, "result.json"), b, 0o644)
	nf := 0
	seenF := map[string]int{}
	for _, x := range o.Obligations {
		if x.Status != "proved" && (*prop == "" || has(x.Props, *prop)) {
			nf++
			sk := x.Func + x.Name
			if seenF[sk]++; seenF[sk] == 1 {
				fmt.Printf("FAILED %s %s [%s] %s: %s %s\n", x.Func, x.Name, strings.Join(x.Props, " "), x.Pos, trunc(strings.Join(strings.Fields(x.Text), " "), 160), trunc(x.Detail, 400))
			}
		}
	}
	if o.Fatal != "" {
		fmt.Println("FATAL", o.Fatal)
	}
	if !o.SpecOK {
		fmt.Println("SPEC", o.SpecDetail)
	}
	fmt.Printf("%d obligations, %d not proved, %d functions, probes %d vacuous %v, %v\n", len(o.Obligations), nf, len(frs), o.Probes, o.Vacuous, secs)
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func fatal(out, msg string) {
	fmt.Println("FATAL", msg)
	if out != "" {
		os.MkdirAll(out, 0o755)
		b, _ := json.Marshal(&Out{Fatal: msg})
		os.WriteFile(filepath.Join(out, "result.json"), b, 0o644)
	}
	os.Exit(0)
}

func uniq(xs []string) []string {
	m := map[string]bool{}
	for _, x := range xs {
		m[x] = true
	}
	return sortedKeys(m)
}

func has(xs []string, p string) bool {
	for _, x := range xs {
		if x == p {
			return true
		}
	}
	return false
}

func (c *Contract) allProps() []string {
	m := map[string]bool{}
	add := func(ps []string) {
		for _, p := range ps {
			m[p] = true
		}
	}
	add(c.Props)
	add(c.FrameProps)
	for _, x := range c.Ensures {
		add(x.Props)
	}
	for _, l := range c.Loops {
		for _, x := range l.Invs {
			add(x.Props)
		}
	}
	return sortedKeys(m)
}

func (c *Contract) mentions(x string) bool {
	if strings.Contains(c.Returns, x) {
		return true
	}
	for _, l := range [][]*Clause{c.Requires, c.Ensures} {
		for _, cl := range l {
			if strings.Contains(cl.Text, x) {
				return true
			}
		}
	}
	return slices.ContainsFunc(c.Hints, func(h string) bool { return strings.Contains(h, x) })
}

func (c *Contract) concerns(p string) bool { return has(c.allProps(), p) }

// ---------- spec library

type Spec struct {
	text   string
	lemmas int
}

func loadSpec(dir, prop string) *Spec {
	files, _ := filepath.Glob(filepath.Join(dir, "*.rs"))
	sort.Strings(files)
	s := &Spec{}
	for _, f := range files {
		b, _ := os.ReadFile(f)
		if m := regexp.MustCompile(`^// FOR (.*)`).FindSubmatch(b); m != nil && prop != "" && !has(strings.Fields(string(m[1])), prop) {
			continue
		}
		s.text += fmt.Sprintf("// ---- %s\n%s\n", filepath.Base(f), b)
	}
	for _, m := range regexp.MustCompile(`spec fn ([A-Za-z0-9_]+)`).FindAllStringSubmatch(s.text, -1) {
		specDefined[m[1]] = true
	}
	s.text = strLitRe2.ReplaceAllStringFunc(s.text, func(m string) string {
		g := strLitRe2.FindStringSubmatch(m)
		v, err := strconv.Unquote(`"` + g[1] + `"`)
		if err != nil {
			panic("bad literal in the specification: " + m)
		}
		return tLit(v).S
	})
	s.lemmas = len(regexp.MustCompile(`proof fn `).FindAllString(s.text, -1))
	return s
}

// lit!("...") in the spec library
var strLitRe2 = regexp.MustCompile(`lit!\("((?:[^"\\]|\\.)*)"\)`)

var mu sync.Mutex

func writePrelude(w *emitter, spec *Spec, frs []*FnResult) { prelude(w, spec.text, frs) }

func prelude(w *emitter, spec string, frs []*FnResult) {
	w.ln("#![allow(unused_imports, unused_variables, dead_code, non_camel_case_types, non_snake_case, unused_parens)]", nil)
	w.ln("use vstd::prelude::*;", nil)
	w.ln("verus! {", nil)
	w.ln("pub mod spec { use vstd::prelude::*;", nil)
	w.ln(spec, nil)
	w.ln(structDecls(), nil)
	w.ln(litDefs(), nil)
	w.ln("}", nil)
	w.ln("pub mod un { use vstd::prelude::*; use super::spec::*;", nil)
	un := map[string]string{}
	for _, fr := range frs {
		for n, d := range fr.Exec.uninterp {
			if !specDefined[n] {
				un[n] = d
			}
		}
	}
	for _, n := range sortedKeys(un) {
		w.ln(un[n], nil)
	}
	w.ln("}", nil)
}

const modChunk = 6

func modName(f string, i int) string { return fmt.Sprintf("m_%s_%d", sanitize(f), i) }

func modHead(f string, i int) string {
	return "pub mod " + modName(f, i) + " { use vstd::prelude::*; use super::spec::*; use super::un::*; broadcast use lib_lemmas;"
}
