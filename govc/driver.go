package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var debug = os.Getenv("GOVC_DEBUG") != ""

var ghosts = [][2]string{
	{"fs", "Map<Str,Str>"}, {"wcount", "int"}, {"tlog", "Seq<TEv>"}, {"clog", "Seq<Seq<Reset>>"},
	{"elog", Str}, {"rlog", "Seq<Reset>"}, {"stdout", Str}, {"stack", "Seq<T_Frame>"}, {"ydoc", "Map<Opq,Opq>"}, {"slog", "Seq<SEv>"}, {"klog", "Seq<Str>"},
}

func newExec(prog *ssa.Program, cs *Contracts, ctr *Contract, fn *ssa.Function) *Exec {
	return &Exec{prog: prog, cs: cs, ctr: ctr, fn: fn, short: ctr.Func, metas: map[int]*ObjMeta{}, globals: map[string]int{},
		decls: map[string]string{}, seen: map[*Stmt]bool{}, maxPath: 6000, used: map[string]bool{}, inlined: map[string]bool{},
		externs: map[string]bool{}, uninterp: map[string]string{}, inits: map[int]*Term{}, lockNames: map[string]string{}, uninterpUsed: map[string]bool{}}
}

type FnResult struct {
	Func     string
	Err      string
	Exec     *Exec
	Ctr      *Contract
	Time     float64
	Statuses map[*Oblig]string
	File     string
}

func (e *Exec) verify() (err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				err = fmt.Errorf("%s", u.msg)
				return
			}
			if debug {
				panic(r)
			}
			err = fmt.Errorf("internal: %v", r)
		}
	}()
	ctr, fn := e.ctr, e.fn
	st := newState()
	for _, g := range ghosts {
		st.ghost[g[0]] = e.fresh(g[0], g[1])
	}
	fr := &Frame{fn: fn, params: map[string]Val{}}
	e.topFr = fr
	e.planLoops()
	e.planNames()
	e.topTypes = map[string]types.Type{}
	var args []Val
	type pobj struct {
		name string
		obj  int
	}
	var pobjs []pobj
	for i, p := range fn.Params {
		n := p.Name()
		if i < len(ctr.Params) {
			n = ctr.Params[i]
		}
		if n == "" || n == "_" {
			n = fmt.Sprintf("p%d", i)
		}
		t := p.Type()
		var v Val
		s := sortOf(t)
		if _, isP := t.Underlying().(*types.Pointer); isP && s != "Opq" && !ctr.Nullable[n] {
			s = optSort(s)
			o := e.newObj(st, e.fresh(n, s), n)
			e.metas[o].shared = true
			v = Ptr{L: Loc{obj: o}, GT: t}
			pobjs = append(pobjs, pobj{n, o})
		} else {
			x := e.fresh(n, s)
			v = e.fromTerm(st, x, t, n)
			switch y := v.(type) {
			case Ptr:
				pobjs = append(pobjs, pobj{n, y.L.obj})
				if s != "T_T" {
					e.metas[y.L.obj].shared = true
				}
			case Mp:
				pobjs = append(pobjs, pobj{n, y.L.obj})
				e.metas[y.L.obj].shared = true
			case Sl:
				pobjs = append(pobjs, pobj{n, y.L.obj})
				e.metas[y.L.obj].caller = !ctr.Writes[n]
			}
		}
		e.typeFacts(st, v, t)
		args = append(args, v)
		fr.params[n] = v
		e.topTypes[n] = t
	}
	var free []Val
	for _, p := range fn.FreeVars {
		et := p.Type().Underlying().(*types.Pointer).Elem()
		o := e.newObj(st, tVar("0int", "fncell"), p.Name())
		e.metas[o].goType = et
		free = append(free, Ptr{L: Loc{obj: o}, GT: p.Type()})
	}
	for i, p := range fn.FreeVars {
		o := free[i].(Ptr).L.obj
		et := p.Type().Underlying().(*types.Pointer).Elem()
		switch u := et.Underlying().(type) {
		case *types.Signature:
			if !isSelf(fn, i) {
				return fmt.Errorf("captured function %s", p.Name())
			}
			st.cells[o] = Clo{fn: fn, free: free}
			continue
		case *types.Pointer:
			c := e.newObj(st, e.fresh(p.Name(), optSort(sortOf(u))), p.Name())
			e.metas[c].shared = true
			v := Ptr{L: Loc{obj: c}, GT: et}
			st.cells[o] = v
			fr.params[p.Name()] = v
			e.topTypes[p.Name()] = et
		default:
			st.heap[o] = e.fresh(p.Name(), sortOf(et))
			e.metas[o].shared = true
			v := Ptr{L: Loc{obj: o}, GT: p.Type()}
			fr.params[p.Name()] = v
		}
	}
	e.entry = st.clone()
	ctx := e.frameCtx(st, nil)
	if e.initMode {
		g := fn.Pkg.Var("init$guard")
		o := e.global(st, g)
		st.heap[o] = tFalse
	}
	for _, c := range ctr.Requires {
		t, er := ctx.trySubst(c.Text)
		if er != nil {
			return fmt.Errorf("precondition %s cannot be stated: %v", c.Name, er)
		}
		e.assume(st, "requires "+c.Name, tRaw(t, "bool"))
	}
	for _, h := range ctr.Entry {
		e.hint(st, ctx, h)
	}
	// globals created while stating the contract belong to the entry state too
	for o, c := range st.heap {
		if e.entry.heap[o] == nil {
			e.entry.heap[o] = c
		}
	}
	e.runFunc(st, fn, args, free, nil, func(s2 *State, rs []Val) {
		e.atReturn(s2, rs, fn, ctr)
	})
	for k, l := range ctr.Loops {
		if !l.used {
			if debug {
				fmt.Fprintln(os.Stderr, "loop spec unused:", ctr.Func, k)
			}
		}
	}
	return nil
}

// isSelf: the captured variable only ever holds the closure itself
func isSelf(fn *ssa.Function, i int) bool {
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != fn {
				continue
			}
			n := 0
			for _, r := range *mc.Bindings[i].Referrers() {
				switch x := r.(type) {
				case *ssa.Store:
					if x.Addr != mc.Bindings[i] || x.Val != ssa.Value(mc) {
						return false
					}
					n++
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.MakeClosure:
					if x != mc {
						return false
					}
				default:
					return false
				}
			}
			for _, r := range *fn.FreeVars[i].Referrers() {
				switch r.(type) {
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return false
				}
			}
			return n == 1
		}
	}
	return false
}

// typeFacts: integer ranges that hold by type are not assumed (ints are mathematical)
func (e *Exec) typeFacts(st *State, v Val, t types.Type) {}

func modBase(ms []string) map[string]map[string]bool {
	r := map[string]map[string]bool{}
	for _, m := range ms {
		p := strings.SplitN(m, ".", 2)
		if r[p[0]] == nil {
			r[p[0]] = map[string]bool{}
		}
		if len(p) == 2 {
			r[p[0]][p[1]] = true
		} else {
			r[p[0]]["*"] = true
		}
	}
	return r
}

func (e *Exec) atReturn(st *State, rs []Val, fn *ssa.Function, ctr *Contract) {
	if e.dryDepth > 0 {
		return
	}
	ctx := e.frameCtx(st, nil)
	sig := fn.Signature
	for i, r := range rs {
		n := fmt.Sprintf("r%d", i)
		if i < len(ctr.Results) {
			n = ctr.Results[i]
		}
		ctx.names[n] = r
		ctx.types[n] = sig.Results().At(i).Type()
	}
	for _, g := range ctr.Ghost {
		e.ghostAssign(st, ctx, g)
	}
	pos := fn.Pos()
	for i, r := range rs {
		if i >= len(ctr.Results) {
			break
		}
		if n := ctr.Results[i]; e.ptrResult(sig.Results().At(i).Type(), n, ctr) {
			if p, ok := r.(Ptr); !ok {
				e.oblige(st, nil, "result-not-nil:"+n, ctr.Props, tFalse, "the result is not nil", pos)
			} else if p.Nil != nil {
				e.oblige(st, nil, "result-not-nil:"+n, ctr.Props, tNot(p.Nil), "the result is not nil", pos)
				p.Nil = nil
				ctx.names[n] = p
			}
		}
		as, ok := ctr.Aliases[ctr.Results[i]]
		sl, isS := r.(Sl)
		if !ok || !isS {
			continue
		}
		l := st.resolve(sl.L)
		good := len(l.path) == 0 && e.metas[l.obj].sliceOf == ""
		for _, a := range as {
			p := strings.SplitN(a, ".", 2)
			if pp, ok := e.topFr.params[p[0]].(Ptr); ok && st.resolve(pp.L.ext(PE{k: 'f', f: p[1]})).key() == e.metas[l.obj].from && len(l.path) == 0 {
				good = true
			}
		}
		if !good {
			e.oblige(st, nil, "aliases:"+ctr.Results[i], ctr.Props, tFalse, "the result shares its elements only with "+strings.Join(as, ", "), pos)
		}
	}
	for key, v := range st.locks {
		if v != 0 {
			e.oblige(st, nil, "locks-released", lockProps(ctr), tFalse, "lock "+e.lockNames[key]+" is released on return", pos)
		}
	}
	// frame
	mods := modBase(ctr.Modifies)
	if e.initMode {
		mods = map[string]map[string]bool{}
	}
	for _, g := range ghosts {
		n := g[0]
		if mods[n] != nil {
			continue
		}
		if st.ghost[n].S != e.entry.ghost[n].S {
			e.oblige(st, nil, "frame:"+n, frameProps(ctr), tEq(st.ghost[n], e.entry.ghost[n]), n+" is not modified", pos)
		}
	}
	owners := map[int]string{}
	for n, v := range e.topFr.params {
		switch x := v.(type) {
		case Ptr:
			owners[x.L.obj] = n
		case Mp:
			owners[x.L.obj] = n
		case Sl:
			owners[x.L.obj] = n
		}
	}
	for k, o := range e.globals {
		i := strings.LastIndex(k, ".")
		owners[o] = pkgShort(k[:i]) + "_" + k[i+1:]
	}
	for _, o := range sortedInts(owners) {
		if e.initMode {
			break
		}
		n := owners[o]
		was := e.entry.heap[o]
		if was == nil {
			was = e.inits[o]
		}
		now := st.heap[o]
		if now == nil || was == nil || now.S == was.S {
			continue
		}
		fs := mods[n]
		if fs["*"] {
			continue
		}
		unwrap := func(t *Term) *Term {
			if strings.HasPrefix(t.Sort, "Option<") && t.view().Op == "some" {
				return t.view().A[0]
			}
			return t
		}
		a, b := unwrap(was), unwrap(now)
		if si := structs[a.Sort]; si != nil && a.Sort == b.Sort {
			for _, f := range si.Fields {
				if fs[f] {
					continue
				}
				x, y := tField(a, f), tField(b, f)
				if x.S != y.S {
					if e.lockGuarded(a.Sort, strings.TrimSuffix(f, "_")) && !e.ctr.Single {
						// other goroutines may change it: compare with the value at acquisition
						continue
					}
					e.oblige(st, nil, "frame:"+n+"."+f, frameProps(ctr), tEq(y, x), n+"."+f+" is not modified", pos)
				}
			}
			continue
		}
		e.oblige(st, nil, "frame:"+n, frameProps(ctr), tEq(now, was), n+" is not modified", pos)
	}
	ctx.env = e.retFr
	for n, c := range st.after {
		ctx.sub[n] = c
	}
	for _, h := range ctr.Hints {
		e.hint(st, ctx, h)
	}
	ctx.env = nil
	if ctr.Returns != "" {
		s, err := ctx.trySubst(ctr.Returns)
		if err != nil {
			e.oblige(st, nil, "returns", ctr.Props, tFalse, "cannot be stated on this code: "+err.Error(), pos)
		} else {
			r := e.toTerm(st, rs[0], sig.Results().At(0).Type())
			e.oblige(st, nil, "returns", ctr.Props, tEq(r, tRaw(s, r.Sort)), "result == "+ctr.Returns, pos)
		}
	}
	for _, c := range ctr.Ensures {
		t, err := ctx.trySubst(c.Text)
		if err != nil {
			e.oblige(st, nil, "ensures:"+c.Name, c.Props, tFalse, "cannot be stated on this code: "+err.Error(), pos)
			continue
		}
		e.oblige(st, nil, "ensures:"+c.Name, c.Props, tRaw(t, "bool"), c.Text, pos)
	}
	e.endPath(st, true, nil)
}

func frameProps(c *Contract) []string {
	if len(c.FrameProps) > 0 {
		return c.FrameProps
	}
	return c.Props
}

func (e *Exec) lockGuarded(sort, f string) bool {
	for _, l := range e.cs.Locks {
		if l.Lock == sort {
			for _, g := range l.Guards {
				if g == f {
					return true
				}
			}
		}
	}
	return false
}

func sortedInts(m map[int]string) []int {
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

// ---------- emission

type lineInfo struct {
	fn  *FnResult
	vc  int
	ob  *Oblig
	txt string
}

type emitter struct {
	b     bytes.Buffer
	line  int
	lines map[int]*lineInfo
}

func (w *emitter) ln(s string, li *lineInfo) {
	n := strings.Count(s, "\n") + 1
	for i := 0; i < n; i++ {
		w.line++
		if li != nil {
			w.lines[w.line] = li
		}
	}
	w.b.WriteString(s)
	w.b.WriteByte('\n')
}

var identRe = regexp.MustCompile(`[A-Za-z_][A-Za-z0-9_]*`)

func (w *emitter) vc(fr *FnResult, i int, vc *VC, rlimit int) {
	e := fr.Exec
	used := map[string]bool{}
	note := func(s string) {
		for _, id := range identRe.FindAllString(s, -1) {
			used[id] = true
		}
	}
	for _, s := range vc.stmts {
		if s.t != nil {
			note(s.t.S)
		}
		note(s.text)
	}
	var ps []string
	for n := range used {
		if s, ok := e.decls[n]; ok {
			ps = append(ps, n+": "+s)
		}
	}
	sort.Strings(ps)
	probe := false
	for _, s := range vc.stmts {
		if s.kind == 'o' && s.ob.Reach {
			probe = true
		}
	}
	_ = probe
	li0 := &lineInfo{fn: fr, vc: i}
	w.ln(fmt.Sprintf("#[verifier::rlimit(%d)]", rlimit), li0)
	w.ln(fmt.Sprintf("proof fn vc_%s_%d(%s)", sanitize(fr.Func), i, strings.Join(ps, ", ")), li0)
	w.ln("{", li0)
	var reach *Stmt
	for _, s := range vc.stmts {
		switch s.kind {
		case 'l':
			w.ln(fmt.Sprintf("    let %s: %s = %s;", s.name, s.t.Sort, s.t.S), li0)
		case 'a':
			w.ln(fmt.Sprintf("    assume(%s); // %s", s.t.S, s.name), li0)
		case 'h':
			w.ln("    "+s.text, li0)
		case 'o':
			if s.ob.Reach {
				reach = s
				continue
			}
			w.ln(fmt.Sprintf("    assert(%s); // %s", s.t.S, s.name), &lineInfo{fn: fr, vc: i, ob: s.ob})
		}
	}
	_ = reach
	w.ln("}", li0)
}

// probe variant: assumptions only, then assert(false)
func (w *emitter) probe(fr *FnResult, i int, vc *VC) bool {
	var reach *Stmt
	for _, s := range vc.stmts {
		if s.kind == 'o' && s.ob.Reach {
			reach = s
		}
	}
	if reach == nil {
		return false
	}
	e := fr.Exec
	used := map[string]bool{}
	for _, s := range vc.stmts {
		if s.t != nil {
			for _, id := range identRe.FindAllString(s.t.S, -1) {
				used[id] = true
			}
		}
		for _, id := range identRe.FindAllString(s.text, -1) {
			used[id] = true
		}
	}
	var ps []string
	for n := range used {
		if s, ok := e.decls[n]; ok {
			ps = append(ps, n+": "+s)
		}
	}
	sort.Strings(ps)
	li0 := &lineInfo{fn: fr, vc: i}
	w.ln("#[verifier::rlimit(2)]", li0)
	w.ln(fmt.Sprintf("proof fn probe_%s_%d(%s)", sanitize(fr.Func), i, strings.Join(ps, ", ")), li0)
	w.ln("{", li0)
	for _, s := range vc.stmts {
		switch s.kind {
		case 'l':
			w.ln(fmt.Sprintf("    let %s: %s = %s;", s.name, s.t.Sort, s.t.S), li0)
		case 'a', 'o':
			if s.kind == 'o' && s.ob.Reach {
				continue
			}
			w.ln(fmt.Sprintf("    assume(%s);", s.t.S), li0)
		}
	}
	w.ln("    assert(false);", &lineInfo{fn: fr, vc: i, ob: reach.ob})
	w.ln("}", li0)
	return true
}

type diag struct {
	Message string `json:"message"`
	Level   string `json:"level"`
	Code    *struct{ Code string }
	Spans   []struct {
		LineStart int    `json:"line_start"`
		LineEnd   int    `json:"line_end"`
		File      string `json:"file_name"`
		Primary   bool   `json:"is_primary"`
		Label     string `json:"label"`
	} `json:"spans"`
	Rendered string `json:"rendered"`
}

type verusOut struct {
	diags    []diag
	verified int
	errors   int
	fatal    bool
	stderr   string
	secs     float64
	smt      float64
}

func runVerus(file string, threads int, multi int, extra ...string) *verusOut {
	args := append([]string{"--crate-type=lib", "--output-json", "--error-format=json", "--multiple-errors", strconv.Itoa(multi), "--num-threads", strconv.Itoa(threads), "--time", "--rlimit", "60"}, extra...)
	args = append(args, file)
	t0 := time.Now()
	cmd := exec.Command("timeout", append([]string{"800", "verus"}, args...)...)
	cmd.Dir = filepath.Dir(file)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	cmd.Run()
	r := &verusOut{secs: time.Since(t0).Seconds(), stderr: se.String()}
	var j struct {
		VR struct {
			Success  bool `json:"success"`
			Verified int  `json:"verified"`
			Errors   int  `json:"errors"`
			VirErr   bool `json:"encountered-vir-error"`
			RustErr  bool `json:"encountered-error"`
		} `json:"verification-results"`
		Times struct {
			SMT struct {
				Total float64 `json:"total"`
			} `json:"smt"`
		} `json:"times-ms"`
	}
	ok := json.Unmarshal(so.Bytes(), &j) == nil && so.Len() > 0
	r.verified, r.errors = j.VR.Verified, j.VR.Errors
	r.smt = j.Times.SMT.Total / 1000
	sc := bufio.NewScanner(&se)
	sc.Buffer(nil, 1<<26)
	for sc.Scan() {
		var d diag
		if json.Unmarshal(sc.Bytes(), &d) == nil && d.Message != "" {
			r.diags = append(r.diags, d)
		}
	}
	r.fatal = !ok || j.VR.VirErr || (j.VR.RustErr && j.VR.Verified == 0 && j.VR.Errors == 0)
	return r
}
