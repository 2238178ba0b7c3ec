package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The contracts name functions, loops and local variables of the code. baseline.json records what
// those names meant where the contracts were written, so that code that was renamed, split into
// helpers or merged since can still be matched with its contracts. The matching only chooses which
// invariants and contracts are tried: whatever it chooses is verified in full.

type BaseFn struct {
	Sig    string      `json:"sig"`
	Locals [][2]string `json:"locals,omitempty"` // name, type
	Loops  []BaseLoop  `json:"loops,omitempty"`  // of the function and of what it inlines, in order
}

type BaseLoop struct {
	Key  string   `json:"key"`
	Uses []string `json:"uses"`
	Fn   string   `json:"fn,omitempty"`
}

type Baseline map[string]*BaseFn

var baseline Baseline

// renamed: the name a function had in the baseline, by its current one
var renamed = map[string]string{}

// gone: contracts of functions that are no longer there in that form
var gone = map[string]*Contract{}

func readBaseline(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		return
	}
	json.Unmarshal(b, &baseline)
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// sigStr is the signature with the receiver as the first parameter
func sigStr(fn *ssa.Function) string {
	var in, out []string
	for _, p := range fn.Params {
		in = append(in, typeStr(p.Type()))
	}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		out = append(out, typeStr(fn.Signature.Results().At(i).Type()))
	}
	v := ""
	if fn.Signature.Variadic() {
		v = "..."
	}
	return "(" + strings.Join(in, ", ") + v + ") (" + strings.Join(out, ", ") + ")"
}

func localsOf(fn *ssa.Function) [][2]string {
	type nv struct {
		pos token.Pos
		n   [2]string
	}
	seen := map[*types.Var]bool{}
	var vs []nv
	add := func(v *types.Var) {
		if v == nil || seen[v] || v.IsField() || v.Name() == "" || v.Name() == "_" {
			return
		}
		if v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
			return
		}
		seen[v] = true
		vs = append(vs, nv{v.Pos(), [2]string{v.Name(), typeStr(v.Type())}})
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.DebugRef); ok {
				if v, ok := d.Object().(*types.Var); ok {
					add(v)
				}
			}
		}
	}
	param := map[token.Pos]bool{}
	for _, p := range fn.Params {
		param[p.Pos()] = true
	}
	// parameters last
	sort.SliceStable(vs, func(i, j int) bool {
		if param[vs[i].pos] != param[vs[j].pos] {
			return param[vs[j].pos]
		}
		return vs[i].pos < vs[j].pos
	})
	var out [][2]string
	for _, v := range vs {
		out = append(out, v.n)
	}
	return out
}

type flatLoop struct {
	BaseLoop
	fn  *ssa.Function
	hdr *ssa.BasicBlock
}

// flatLoops lists the loops of fn and of the functions it inlines, in the order of the source
func (e *Exec) flatLoops(top *ssa.Function) []flatLoop {
	var out []flatLoop
	seen := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if seen[fn] || len(fn.Blocks) == 0 {
			return
		}
		seen[fn] = true
		type item struct {
			pos  token.Pos
			size int
			do   func()
		}
		var items []item
		for _, b := range fn.Blocks {
			if isHeader(b) {
				key := fmt.Sprint(loopIndex(fn, b))
				if fn != top {
					key = fn.Name() + "." + key
				}
				pos, in := blockPos(b), loopBlocks(b)
				for _, c := range fn.Blocks {
					if in[c] || !c.Dominates(b) {
						continue
					}
					for _, x := range c.Instrs {
						if _, ok := x.(ssa.CallInstruction); ok && x.Pos() > pos {
							pos = x.Pos() + 1 // what is ranged over is called for first
						}
					}
				}
				items = append(items, item{pos, -len(in), func() {
					l := flatLoop{fn: fn, hdr: b}
					l.Key, l.Uses = key, loopUses(b)
					if fn != top {
						l.Fn = shortName(fn)
					}
					out = append(out, l)
				}})
			}
			for _, in := range b.Instrs {
				var callee *ssa.Function
				switch x := in.(type) {
				case ssa.CallInstruction:
					callee = x.Common().StaticCallee()
					if callee == nil {
						continue
					}
				case *ssa.MakeClosure:
					callee = x.Fn.(*ssa.Function)
				default:
					continue
				}
				if !inRepo(callee) {
					continue
				}
				if c := e.contractFor(callee); c != nil && !c.Inline {
					continue
				}
				if _, ok := models[shortName(callee)]; ok {
					continue
				}
				if o := callee.Origin(); o != nil && len(callee.Blocks) == 0 {
					callee = o
				}
				pos := in.Pos()
				if _, ok := in.(*ssa.MakeClosure); ok {
					pos = callee.Pos()
				}
				items = append(items, item{pos, 1, func() { visit(callee) }})
			}
		}
		sort.SliceStable(items, func(i, j int) bool {
			if items[i].pos != items[j].pos {
				return items[i].pos < items[j].pos
			}
			return items[i].size < items[j].size
		})
		for _, it := range items {
			it.do()
		}
	}
	visit(top)
	return out
}

// loopUses: what the loop calls and assigns, a fingerprint
func loopUses(h *ssa.BasicBlock) []string {
	m := map[string]bool{}
	for b := range loopBlocks(h) {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case ssa.CallInstruction:
				c := x.Common()
				if f := c.StaticCallee(); f != nil {
					m["call "+shortName(f)] = true
				} else if c.IsInvoke() {
					m["call "+c.Method.Name()] = true
				}
			case *ssa.DebugRef:
				if v, ok := x.Object().(*types.Var); ok && !v.IsField() {
					m["var "+v.Name()] = true
					m["type "+typeStr(v.Type())] = true
				}
			case *ssa.BinOp:
				m["op "+x.Op.String()] = true
			}
		}
	}
	return sortedKeys(m)
}

func similar(a, b []string) float64 {
	m := map[string]bool{}
	for _, x := range a {
		m[x] = true
	}
	n := 0
	for _, x := range b {
		if m[x] {
			n++
		}
	}
	if len(a)+len(b)-n == 0 {
		return 0
	}
	return float64(n) / float64(len(a)+len(b)-n)
}

// planLoops decides which invariants belong to which loop
func (e *Exec) planLoops() {
	e.loopPlan = map[*ssa.BasicBlock]*LoopSpec{}
	e.fromGone = map[*ssa.Function]string{}
	base := baseline[e.ctr.Func]
	cur := e.flatLoops(e.fn)
	if base == nil || sameLoops(base.Loops, cur) {
		return
	}
	e.planned = true
	defer e.planGone(cur)
	specOf := func(key string) *LoopSpec {
		if s := e.ctr.Loops[key]; s != nil {
			return s
		}
		if i := strings.Index(key, "$"); i >= 0 {
			return e.ctr.Loops[key[i:]]
		}
		return nil
	}
	// order-preserving alignment of the loops there were with those there are
	n, m := len(base.Loops), len(cur)
	score := make([][]float64, n+1)
	for i := range score {
		score[i] = make([]float64, m+1)
	}
	at := func(i, j int) float64 {
		s := similar(base.Loops[i].Uses, cur[j].Uses) + 0.01
		if base.Loops[i].Key == cur[j].Key {
			s += 0.02
		}
		return s
	}
	for i := n - 1; i >= 0; i-- {
		for j := m - 1; j >= 0; j-- {
			score[i][j] = max(score[i+1][j], score[i][j+1], score[i+1][j+1]+at(i, j))
		}
	}
	for i, j := 0, 0; i < n && j < m; {
		switch {
		case score[i][j] == score[i+1][j+1]+at(i, j):
			if s := specOf(base.Loops[i].Key); s != nil {
				e.loopPlan[cur[j].hdr] = s
			}
			i++
			j++
		case score[i][j] == score[i+1][j]:
			i++
		default:
			j++
		}
	}
}

// planGone tries the invariants of functions that are gone on loops of functions that are new
func (e *Exec) planGone(cur []flatLoop) {
	for _, l := range cur {
		n := shortName(l.fn)
		if e.loopPlan[l.hdr] != nil || baseline[n] != nil {
			continue
		}
		best := 0.3
		for _, g := range sortedKeys(gone) {
			if baseline[g] == nil || g[:strings.Index(g, ".")] != n[:strings.Index(n, ".")] {
				continue
			}
			for _, bl := range baseline[g].Loops {
				if s := gone[g].Loops[bl.Key]; s != nil && similar(bl.Uses, l.Uses) > best {
					best = similar(bl.Uses, l.Uses)
					e.loopPlan[l.hdr] = s
					e.fromGone[l.fn] = g
				}
			}
		}
	}
}

func sameLoops(a []BaseLoop, b []flatLoop) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Key != b[i].Key {
			return false
		}
	}
	return true
}

// nameMap maps local names of the baseline that are gone to those that came in their place
type nameMap struct {
	new map[string][]string
	typ map[string]string
}

// planNames pairs each inlined function that was there with its former self; the function under
// contract is compared together with the helpers that are new
func (e *Exec) planNames() {
	e.nameMaps = map[*ssa.Function]*nameMap{}
	if baseline == nil {
		return
	}
	base := baseline[e.ctr.Func]
	if base == nil {
		return
	}
	oldTop := append([][2]string{}, base.Locals...)
	var newTop [][2]string
	var group []*ssa.Function
	here := map[string]bool{}
	for _, f := range e.flatFns(e.fn) {
		n := shortName(f)
		here[n] = true
		if b := baseline[n]; b != nil && f != e.fn {
			e.nameMaps[f] = pairNames(b.Locals, localsOf(f))
			continue
		}
		if g := e.fromGone[f]; g != "" {
			e.nameMaps[f] = pairNames(baseline[g].Locals, localsOf(f))
			continue
		}
		group = append(group, f)
		newTop = append(newTop, localsOf(f)...)
	}
	// what it inlined and is gone
	for _, l := range base.Loops {
		if n := l.Fn; n != "" && !here[n] && baseline[n] != nil {
			here[n] = true
			oldTop = append(oldTop, baseline[n].Locals...)
		}
	}
	m := pairNames(oldTop, newTop)
	for _, f := range group {
		e.nameMaps[f] = m
	}
}

func pairNames(old, cur [][2]string) *nameMap {
	m := &nameMap{map[string][]string{}, map[string]string{}}
	was, is := map[string]bool{}, map[string]bool{}
	for _, l := range old {
		was[l[0]] = true
		m.typ[l[0]] = l[1]
	}
	for _, l := range cur {
		is[l[0]] = true
	}
	type lists struct{ old, new []string }
	by := map[string]*lists{}
	get := func(t string) *lists {
		switch strings.TrimPrefix(t, "*") {
		case "strings.Builder", "bytes.Buffer", "io.Writer", "io.StringWriter", "io.ByteWriter":
			t = "io.Writer"
		}
		if by[t] == nil {
			by[t] = &lists{}
		}
		return by[t]
	}
	for _, l := range old {
		if x := get(l[1]); !is[l[0]] && !has(x.old, l[0]) {
			x.old = append(x.old, l[0])
		}
	}
	for _, l := range cur {
		if x := get(l[1]); !was[l[0]] && !has(x.new, l[0]) {
			x.new = append(x.new, l[0])
		}
	}
	for _, x := range by {
		for i, o := range x.old {
			if len(x.old) == len(x.new) {
				m.new[o] = []string{x.new[i]}
			} else {
				m.new[o] = x.new
			}
		}
	}
	return m
}

func (e *Exec) newNames(fn *ssa.Function, n string) []string {
	if m := e.nameMaps[fn]; m != nil {
		return m.new[n]
	}
	return nil
}

func (e *Exec) oldType(fn *ssa.Function, n string) string {
	if m := e.nameMaps[fn]; m != nil {
		return m.typ[n]
	}
	return ""
}

func (e *Exec) flatFns(top *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if seen[fn] || len(fn.Blocks) == 0 {
			return
		}
		seen[fn] = true
		out = append(out, fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee *ssa.Function
				switch x := in.(type) {
				case ssa.CallInstruction:
					callee = x.Common().StaticCallee()
				case *ssa.MakeClosure:
					callee = x.Fn.(*ssa.Function)
				}
				if callee == nil || !inRepo(callee) {
					continue
				}
				if c := e.contractFor(callee); c != nil && !c.Inline {
					continue
				}
				if _, ok := models[shortName(callee)]; ok {
					continue
				}
				if o := callee.Origin(); o != nil && len(callee.Blocks) == 0 {
					callee = o
				}
				visit(callee)
			}
		}
	}
	visit(top)
	return out
}

// makeBaseline records the functions of the code the contracts were written for
func makeBaseline(prog *ssa.Program, cs *Contracts, fns map[string]*ssa.Function) Baseline {
	out := Baseline{}
	for n, f := range fns {
		b := &BaseFn{Sig: sigStr(f), Locals: localsOf(f)}
		if c := cs.M[n]; c != nil && !c.Extern {
			e := newExec(prog, cs, c, f)
			for _, l := range e.flatLoops(f) {
				b.Loops = append(b.Loops, l.BaseLoop)
			}
		}
		out[n] = b
	}
	return out
}

// matchFunctions follows functions under contract to their new names; contracts of unexported
// functions that are gone, or have other parameters now, are dropped: their callers are verified
// without them
func matchFunctions(cs *Contracts, fns map[string]*ssa.Function) {
	if baseline == nil {
		return
	}
	place := func(n string) string { // package, and the enclosing function of a closure
		if i := strings.Index(n, "$"); i >= 0 {
			return n[:i+1]
		}
		return n[:strings.Index(n, ".")]
	}
	taken := map[string]bool{}
	for _, n := range append([]string{}, cs.Order...) {
		c, b := cs.M[n], baseline[n]
		if c.Extern || c.Init || b == nil {
			continue
		}
		f := fns[n]
		if f != nil && sigStr(f) == b.Sig {
			continue
		}
		// candidates: functions there were not before, and closures of the same function
		var cands []string
		for _, m := range sortedKeys(fns) {
			if place(m) != place(n) || taken[m] || sigStr(fns[m]) != b.Sig {
				continue
			}
			if bb := baseline[m]; bb != nil && (!strings.Contains(n, "$") || cs.M[m] != nil) {
				continue
			}
			cands = append(cands, m)
		}
		if len(cands) == 1 {
			taken[cands[0]] = true
			g := fns[cands[0]]
			if f != nil {
				// the name has another meaning now
				other := n + "'"
				fns[other] = f
				renamedFn(f, other)
			}
			delete(fns, cands[0])
			fns[n] = g
			renamedFn(g, n)
			continue
		}
		if exportedName(n) || c.Claim {
			continue
		}
		gone[n] = c
		delete(cs.M, n)
		for i, o := range cs.Order {
			if o == n {
				cs.Order = append(cs.Order[:i:i], cs.Order[i+1:]...)
				break
			}
		}
	}
}

func renamedFn(f *ssa.Function, as string) {
	renamed[codeName(f)] = as
}

func exportedName(n string) bool {
	if strings.Contains(n, "$") {
		return false
	}
	return token.IsExported(n[strings.LastIndex(n, ".")+1:])
}

// goneName: the text names a local variable that the code had where the contracts were written
func goneName(err error) bool {
	n, ok := strings.CutPrefix(err.Error(), "unknown name $")
	if !ok {
		return false
	}
	n, _, _ = strings.Cut(n, ".")
	for _, b := range baseline {
		for _, l := range b.Locals {
			if l[0] == n {
				return true
			}
		}
	}
	return false
}
