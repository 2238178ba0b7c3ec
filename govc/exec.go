package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type VC struct {
	stmts []*Stmt
	vars  []string // declarations name: sort
}

type Exec struct {
	retFr        *Frame // the frame that returns
	prog         *ssa.Program
	cs           *Contracts
	ctr          *Contract
	fn           *ssa.Function
	short        string
	metas        map[int]*ObjMeta
	globals      map[string]int
	nobj         int
	nvar         int
	decls        map[string]string // var -> sort
	order        []string
	vcs          []*VC
	obligs       []*Oblig
	seen         map[*Stmt]bool
	paths        int
	maxPath      int
	entry        *State
	topFr        *Frame
	used         map[string]bool // contracts used
	inlined      map[string]bool
	externs      map[string]bool
	uninterp     map[string]string // declared uninterpreted functions
	reached      bool
	dryDepth     int
	inits        map[int]*Term
	loopsSeen    []string
	loopsNoSpec  []string
	safety       int
	roleTry      map[string]string
	loopPlan     map[*ssa.BasicBlock]*LoopSpec
	planned      bool
	fromGone     map[*ssa.Function]string
	nameMaps     map[*ssa.Function]*nameMap
	topTypes     map[string]types.Type
	lockNames    map[string]string
	uninterpUsed map[string]bool
	initMode     bool
}

func (e *Exec) fresh(hint, sort string) *Term {
	e.nvar++
	h := regexp.MustCompile(`[^A-Za-z0-9_]`).ReplaceAllString(hint, "_")
	n := fmt.Sprintf("%s_%d", h, e.nvar)
	if n[0] >= '0' && n[0] <= '9' {
		n = "v" + n
	}
	e.decls[n] = sort
	return tVar(n, sort)
}

func (e *Exec) newObj(st *State, content *Term, name string) int {
	e.nobj++
	st.heap[e.nobj] = content
	e.metas[e.nobj] = &ObjMeta{name: name, sort: content.Sort}
	return e.nobj
}

func (e *Exec) assume(st *State, name string, t *Term) {
	if isT(t) {
		return
	}
	st.stmts = append(st.stmts, &Stmt{kind: 'a', name: name, t: t})
}

// bind introduces a let for large terms
func (e *Exec) bind(st *State, hint string, t *Term) *Term {
	if len(t.S) <= 60 || t.Op == "lit" || t.Op == "var" {
		return t
	}
	e.nvar++
	h := regexp.MustCompile(`[^A-Za-z0-9_]`).ReplaceAllString(hint, "_")
	n := fmt.Sprintf("%s_%d", h, e.nvar)
	if h == "" {
		n = "l" + n
	}
	st.stmts = append(st.stmts, &Stmt{kind: 'l', name: n, t: t})
	v := tVar(n, t.Sort)
	v.Def = t
	return v
}

func (e *Exec) write(st *State, l Loc, x *Term) {
	l = st.resolve(l)
	st.writeRaw(l, x)
	c := st.heap[l.obj]
	// bind oversized leaves
	if c.Op == "struct" {
		vals := make([]*Term, len(c.A))
		for i, a := range c.A {
			vals[i] = e.bind(st, structs[c.Sort].Fields[i], a)
		}
		st.heap[l.obj] = tStruct(structs[c.Sort], vals...)
	} else {
		st.heap[l.obj] = e.bind(st, e.metas[l.obj].name, c)
	}
}

func (e *Exec) oblige(st *State, fr *Frame, name string, props []string, t *Term, text string, pos token.Pos) {
	if e.dryDepth > 0 {
		return
	}
	p := ""
	if pos.IsValid() {
		ps := e.prog.Fset.Position(pos)
		p = fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, "/repo/"), ps.Line)
	}
	ob := &Oblig{Fn: e.short, Name: name, Props: e.ctr.obligProps(e.cs, name, props), Text: text, Pos: p}
	st.stmts = append(st.stmts, &Stmt{kind: 'o', name: name, t: t, ob: ob})
}

func (e *Exec) safe(st *State, fr *Frame, name string, t *Term, pos token.Pos) {
	if isT(t) || e.initMode {
		return
	}
	if st.facts[t.S] {
		return
	}
	e.oblige(st, fr, "safety:"+name, e.ctr.Props, t, name, pos)
	st.facts[t.S] = true
}

func (e *Exec) endPath(st *State, reach bool, fr *Frame) {
	if e.dryDepth > 0 {
		return
	}
	if reach {
		ob := &Oblig{Fn: e.short, Name: "reach", Text: "reachability probe: this exit must not be provably unreachable", Reach: true}
		st.stmts = append(st.stmts, &Stmt{kind: 'o', name: "reach", t: tFalse, ob: ob})
	}
	// only paths that hold a new obligation are emitted
	has := false
	for _, s := range st.stmts {
		if s.kind == 'o' && !e.seen[s] {
			has = true
		}
	}
	e.paths++
	if e.paths > e.maxPath {
		panic(unsupported(fmt.Sprintf("more than %d paths", e.maxPath)))
	}
	if !has {
		return
	}
	vc := &VC{}
	for _, s := range st.stmts {
		c := *s
		if s.kind == 'o' {
			if e.seen[s] {
				if s.ob.Reach {
					continue
				}
				c.kind = 'a'
			} else {
				e.seen[s] = true
				e.obligs = append(e.obligs, s.ob)
			}
		}
		vc.stmts = append(vc.stmts, &c)
	}
	e.vcs = append(e.vcs, vc)
}

type cont func(st *State, results []Val)

// ---------- values

func (e *Exec) val(st *State, fr *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constant(x)
	case *ssa.Global:
		return Ptr{L: Loc{obj: e.global(st, x)}, GT: x.Type()}
	case *ssa.Function:
		return Clo{fn: x}
	case *ssa.Builtin:
		return BuiltinV{x.Name()}
	}
	r, ok := fr.regs[v]
	if !ok {
		panic(unsupported(fmt.Sprintf("unset register %s in %s", v.Name(), fr.fn)))
	}
	return r
}

func (e *Exec) constant(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		// nil or zero value
		if p, ok := types.Unalias(t).(*types.TypeParam); ok {
			return TV{e.uninterpApp("zero_"+p.Obj().Name(), "Any")}
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			return TV{zero(sortOf(t))}
		case *types.Slice, *types.Map, *types.Pointer, *types.Signature, *types.Interface:
			_ = u
			return NilV{}
		case *types.Basic:
			if u.Kind() == types.UntypedNil {
				return NilV{}
			}
			return TV{zero(sortOf(t))}
		}
		return NilV{}
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return TV{tBool(constant.BoolVal(c.Value))}
	case constant.String:
		return TV{tLit(constant.StringVal(c.Value))}
	case constant.Int:
		i, exact := constant.Int64Val(c.Value)
		if !exact {
			return TV{tRaw(c.Value.ExactString()+"int", "int")}
		}
		return TV{tInt(i)}
	}
	panic(unsupported("constant " + c.String()))
}

func (e *Exec) global(st *State, g *ssa.Global) int {
	key := g.Pkg.Pkg.Path() + "." + g.Name()
	if o, ok := e.globals[key]; ok {
		if st.heap[o] == nil {
			st.heap[o] = e.inits[o]
			e.globalFact(st, pkgShort(g.Pkg.Pkg.Path())+"_"+g.Name(), e.inits[o])
		}
		return o
	}
	et := g.Type().Underlying().(*types.Pointer).Elem()
	s := sortOf(et)
	if p, ok := et.Underlying().(*types.Pointer); ok && s != "Opq" {
		// pointer global: an object on its own, never nil
		s = "Option<" + sortOf(p.Elem()) + ">"
	}
	e.nobj++
	o := e.nobj
	short := pkgShort(g.Pkg.Pkg.Path()) + "_" + g.Name()
	var c *Term
	if s == "()" {
		c = zero("()")
	} else if strings.HasPrefix(s, "Option<") {
		c = tSome(e.freshGlobal("g_"+short, optSort(s)))
	} else {
		c = e.freshGlobal("g_"+short, s)
	}
	e.globals[key] = o
	e.metas[o] = &ObjMeta{name: "g_" + short, sort: s, shared: true, goType: et}
	e.inits[o] = c
	st.heap[o] = c
	e.globalFact(st, short, c)
	return o
}

var usedGlobals = map[string]bool{}

// globalFact assumes what the package initialisation establishes about a global that is never written
func (e *Exec) globalFact(st *State, short string, c *Term) {
	cl := e.cs.Globals[short]
	if cl == nil || e.initMode {
		return
	}
	e.used[short[:strings.Index(short, "_")]+".init"] = true
	usedGlobals[short] = true
	if v := c.view(); v.Op == "some" {
		c = v.A[0]
	}
	ctx := &Ctx{e: e, st: st, names: map[string]Val{"v": TV{c}}, types: map[string]types.Type{}, sub: map[string]*Ctx{}}
	t, err := ctx.trySubst(cl.Text)
	if err != nil {
		panic(unsupported("global clause " + short + ": " + err.Error()))
	}
	e.assume(st, "initialisation of "+short, tRaw(t, "bool"))
}

func (e *Exec) freshGlobal(n, s string) *Term {
	if strings.HasPrefix(s, "T_") && structs[s] != nil && n != "" {
	}
	e.decls[n] = s
	return tVar(n, s)
}

// toTerm converts a value to a term of the sort of Go type t
func (e *Exec) toTerm(st *State, v Val, t types.Type) *Term {
	s := sortOf(t)
	return e.toSort(st, v, s, t)
}

func (e *Exec) toSort(st *State, v Val, s string, t types.Type) *Term {
	switch x := v.(type) {
	case TV:
		if s == "Any" && x.T.Sort != "Any" {
			return e.toAny(st, v, t)
		}
		return x.T
	case NilV:
		return zero(s)
	case Sl:
		if s == "Any" {
			return e.toAny(st, v, t)
		}
		return st.read(x.L)
	case Mp:
		return st.read(x.L)
	case Ptr:
		if strings.HasPrefix(s, "Option<") {
			r := tSome(st.read(x.L))
			if x.Nil != nil {
				return tIte(x.Nil, tNone(optSort(s)), r)
			}
			return r
		}
		if s == "Any" || s == "Opq" {
			return tVar("any_other("+strconv.Itoa(x.L.obj)+")", "Any")
		}
		return st.read(x.L)
	case IfaceV:
		if s == "Any" {
			return e.toAny(st, x.v, x.t)
		}
		return e.toSort(st, x.v, s, x.t)
	case Clo:
		return e.specFn(st, x, s)
	case Tup:
		panic(unsupported("tuple as term"))
	}
	panic(unsupported(fmt.Sprintf("toTerm %T", v)))
}

func (e *Exec) specFn(st *State, c Clo, s string) *Term {
	if ctr := e.contractFor(c.fn); ctr != nil && ctr.SpecFn != "" {
		e.used[ctr.Func] = true
		return tRaw(strings.TrimSpace(ctr.SpecFn), s)
	}
	if t := e.contractFn(st, c, s); t != nil {
		return t
	}
	return e.lambda(st, c, s)
}

// contractFn is a function with a contract that states its result, as a spec closure
func (e *Exec) contractFn(st *State, c Clo, s string) *Term {
	ctr := e.contractFor(c.fn)
	if ctr == nil || ctr.Returns == "" || len(ctr.Requires) > 0 || len(ctr.Modifies) > 0 || len(c.free) > 0 {
		return nil
	}
	ctx := &Ctx{e: e, st: st, names: map[string]Val{}, types: map[string]types.Type{}, sub: map[string]*Ctx{}}
	var ps []string
	sig := c.fn.Signature
	if sig.Recv() != nil || len(ctr.Params) != sig.Params().Len() {
		return nil
	}
	for i := 0; i < sig.Params().Len(); i++ {
		e.nvar++
		t := tVar(fmt.Sprintf("fa_%d", e.nvar), sortOf(sig.Params().At(i).Type()))
		ps = append(ps, t.S+": "+t.Sort)
		ctx.names[ctr.Params[i]] = TV{t}
	}
	r, err := ctx.trySubst(ctr.Returns)
	if err != nil {
		panic(unsupported("returns of " + ctr.Func + ": " + err.Error()))
	}
	e.used[ctr.Func] = true
	return tRaw("|"+strings.Join(ps, ", ")+"| "+r, s)
}

func (e *Exec) toAny(st *State, v Val, t types.Type) *Term {
	switch x := v.(type) {
	case NilV:
		return tNil
	case TV:
		switch x.T.Sort {
		case "Any":
			return x.T
		case Str:
			if t != nil {
				if _, ok := t.Underlying().(*types.Slice); ok {
					return tApp("Any::B", "Any", x.T)
				}
			}
			return tApp("Any::S", "Any", x.T)
		case "int":
			return tApp("Any::I", "Any", x.T)
		case "bool":
			return tApp("Any::Bo", "Any", x.T)
		}
		return e.uninterpApp("any_of_"+sanitize(x.T.Sort), "Any", x.T)
	case Sl:
		c := st.read(x.L)
		if c.Sort == Str {
			return tApp("Any::B", "Any", c)
		}
		return e.uninterpApp("any_of_"+sanitize(c.Sort), "Any", c)
	case IfaceV:
		return e.toAny(st, x.v, x.t)
	case Ptr:
		return tVar("any_other("+strconv.Itoa(x.L.obj)+")", "Any")
	}
	panic(unsupported(fmt.Sprintf("toAny %T", v)))
}

func sanitize(s string) string {
	return regexp.MustCompile(`[^A-Za-z0-9]+`).ReplaceAllString(s, "_")
}

func (e *Exec) uninterpApp(name, sort string, args ...*Term) *Term {
	var ps []string
	for i, a := range args {
		ps = append(ps, fmt.Sprintf("x%d: %s", i, a.Sort))
	}
	e.uninterp[name] = fmt.Sprintf("pub uninterp spec fn %s(%s) -> %s;", name, strings.Join(ps, ", "), sort)
	return tApp(name, sort, args...)
}

// fromTerm builds a value of Go type t from a term
func (e *Exec) fromTerm(st *State, x *Term, t types.Type, name string) Val {
	if t == nil {
		return TV{x}
	}
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Slice:
		o := e.newObj(st, x, name)
		e.metas[o].sliceOf = "a container"
		return Sl{L: Loc{obj: o}}
	case *types.Map:
		return Mp{Loc{obj: e.newObj(st, x, name)}}
	case *types.Pointer:
		if x.Sort == "Opq" {
			return TV{x}
		}
		o := e.newObj(st, x, name)
		e.metas[o].copyOf = true
		n := tIsNone(x)
		p := Ptr{L: Loc{obj: o}.ext(PE{k: 'o'}), Nil: n, GT: t}
		if isF(n) {
			p.Nil = nil
		}
		return p
	case *types.Interface:
		if x.Sort == "T_Sink" || x.Sort == "T_T" {
			o := e.newObj(st, x, name)
			return Ptr{L: Loc{obj: o}, GT: t}
		}
	case *types.Tuple:
		_ = u
	}
	return TV{x}
}

// loadVal gives the value stored at loc (Go type t)
func (e *Exec) loadVal(st *State, l Loc, t types.Type) Val {
	switch types.Unalias(t).Underlying().(type) {
	case *types.Map:
		return Mp{l}
	case *types.Slice:
		m := e.metas[st.resolve(l).obj]
		c := st.read(l)
		o := e.newObj(st, c, "sl")
		e.metas[o].caller = m != nil && m.caller
		e.metas[o].sliceOf = "a variable"
		e.metas[o].from = st.resolve(l).key()
		return Sl{L: Loc{obj: o}}
	case *types.Pointer:
		c := st.read(l)
		if c.Sort == "Opq" || c.Sort == "T_Matcher" {
			return TV{c}
		}
		p := Ptr{L: l.ext(PE{k: 'o'}), GT: t}
		n := tIsNone(c)
		if !isF(n) {
			p.Nil = n
		}
		return p
	}
	c := st.read(l)
	if c.Sort == "T_Sink" || c.Sort == "T_T" {
		if _, ok := types.Unalias(t).Underlying().(*types.Interface); ok {
			return Ptr{L: l, GT: t}
		}
	}
	return TV{c}
}

func (e *Exec) storeVal(st *State, fr *Frame, l Loc, v Val, t types.Type) {
	// a function value stored in a local variable
	rl := st.resolve(l)
	if len(rl.path) == 0 {
		switch p := v.(type) {
		case Clo:
			st.cells[rl.obj] = v
			return
		case Ptr:
			_, isP := types.Unalias(t).Underlying().(*types.Pointer)
			if isP && sortOf(t) != "Opq" && !e.metas[rl.obj].shared {
				st.cells[rl.obj] = p
				return
			}
		}
		delete(st.cells, rl.obj)
	}
	if p, ok := v.(Ptr); ok && sortOf(t) != "Opq" {
		if _, isP := types.Unalias(t).Underlying().(*types.Pointer); isP {
			// the container holds a copy of what the pointer refers to: neither may be written from here on
			e.freeze(st, p.L)
		}
	}
	x := e.toTerm(st, v, t)
	e.write(st, l, x)
	// local maps stored into a container keep being updated through it
	if m, ok := v.(Mp); ok {
		ml := st.resolve(m.L)
		if len(ml.path) == 0 && ml.obj != rl.obj && len(rl.path) > 0 {
			st.fwd[ml.obj] = rl
		}
	}
}

// freeze forbids writes to an object that was copied into a container
func (e *Exec) freeze(st *State, l Loc) {
	l = st.resolve(l)
	st.facts[fmt.Sprint("frozen ", l.obj)] = true
}

// ---------- calls and blocks

func (e *Exec) feasible(st *State, c *Term) (bool, bool) {
	if isT(c) {
		return true, false
	}
	if isF(c) {
		return false, true
	}
	if v, ok := st.facts[c.S]; ok {
		return v, !v
	}
	if n := c.view(); n.Op == "not" {
		if v, ok := st.facts[n.A[0].S]; ok {
			return !v, v
		}
	}
	return true, true
}

func (st *State) learn(c *Term, v bool) {
	st.facts[c.S] = v
	n := c.view()
	st.facts[n.S] = v
	switch n.Op {
	case "not":
		st.learn(n.A[0], !v)
	case "and":
		if v {
			st.learn(n.A[0], true)
			st.learn(n.A[1], true)
		}
	case "or":
		if !v {
			st.learn(n.A[0], false)
			st.learn(n.A[1], false)
		}
	}
}

// fork runs f for each feasible outcome of c
func (e *Exec) fork(st *State, c *Term, f func(st *State, v bool)) {
	t, fl := e.feasible(st, c)
	if t && fl {
		s2 := st.clone()
		e.assume(s2, "if", c)
		s2.learn(c, true)
		f(s2, true)
		e.assume(st, "else", tNot(c))
		st.learn(c, false)
		f(st, false)
		return
	}
	f(st, t)
}

func (e *Exec) runFunc(st *State, fn *ssa.Function, args []Val, free []Val, parent *Frame, k cont) {
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body for " + fn.String()))
	}
	fr := &Frame{fn: fn, regs: map[ssa.Value]Val{}, env: map[string]Val{}, addr: map[string]bool{}, parent: parent, loops: map[*ssa.BasicBlock]*loopCtx{}}
	if parent != nil {
		fr.depth = parent.depth + 1
		fr.ctr = parent.ctr
	}
	if fr.depth > 12 {
		panic(unsupported("inlining too deep at " + fn.String()))
	}
	for i, p := range fn.Params {
		fr.regs[p] = args[i]
		fr.env[p.Name()] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.regs[p] = free[i]
		fr.env[p.Name()] = free[i]
		fr.addr[p.Name()] = true
	}
	e.block(st, fr, fn.Blocks[0], nil, k)
}

func isHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

func (e *Exec) block(st *State, fr *Frame, b *ssa.BasicBlock, pred *ssa.BasicBlock, k cont) {
	if pred != nil {
		for h, lc := range fr.loops {
			if lc.dry == nil && lc.spec != nil && len(lc.spec.Exit) > 0 {
				in := loopBlocks(h)
				if in[pred] && !in[b] {
					ctx := e.loopCtxFor(st, fr, lc)
					for _, x := range lc.spec.Exit {
						e.hint(st, ctx, x)
					}
				}
			}
		}
	}
	if isHeader(b) {
		e.loopHeader(st, fr, b, pred, k)
		return
	}
	e.phis(st, fr, b, pred)
	e.instrs(st, fr, b, 0, k)
}

func (e *Exec) phis(st *State, fr *Frame, b *ssa.BasicBlock, pred *ssa.BasicBlock) {
	var vals []Val
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range b.Preds {
			if p == pred {
				vals = append(vals, e.val(st, fr, phi.Edges[i]))
				break
			}
		}
		ps = append(ps, phi)
	}
	for i, p := range ps {
		fr.regs[p] = vals[i]
		if p.Comment != "" {
			fr.env[p.Comment] = vals[i]
			delete(fr.addr, p.Comment)
		}
	}
}

func (e *Exec) instrs(st *State, fr *Frame, b *ssa.BasicBlock, i int, k cont) {
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		switch x := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := e.val(st, fr, x.Cond).(TV).T
			e.fork(st, c, func(s2 *State, v bool) {
				f2 := fr.clone()
				if v {
					e.block(s2, f2, b.Succs[0], b, k)
				} else {
					e.block(s2, f2, b.Succs[1], b, k)
				}
			})
			return
		case *ssa.Jump:
			e.block(st, fr, b.Succs[0], b, k)
			return
		case *ssa.Return:
			var rs []Val
			for _, r := range x.Results {
				rs = append(rs, e.val(st, fr, r))
			}
			if fr.parent == nil {
				e.retFr = fr
			}
			k(st, rs)
			return
		case *ssa.Panic:
			e.oblige(st, fr, "safety:panic", e.ctr.Props, tFalse, "panic is unreachable", x.Pos())
			e.endPath(st, false, fr)
			return
		case *ssa.Call:
			e.call(st, fr, &x.Call, x, func(s2 *State, rs []Val) {
				f2 := fr.clone()
				f2.regs[x] = pack(rs)
				e.instrs(s2, f2, b, i+1, k)
			})
			return
		case *ssa.RunDefers:
			e.runDefers(st, fr, func(s2 *State, f2 *Frame) {
				e.instrs(s2, f2, b, i+1, k)
			})
			return
		case *ssa.Defer:
			d := deferred{call: &x.Call, pos: x}
			for _, a := range x.Call.Args {
				d.vals = append(d.vals, e.val(st, fr, a))
			}
			d.fn = e.calleeVal(st, fr, &x.Call)
			fr.defers = append(fr.defers, d)
		case *ssa.Go:
			panic(unsupported("go statement"))
		case *ssa.TypeAssert:
			e.typeAssert(st, fr, x, func(s2 *State, v Val) {
				f2 := fr.clone()
				f2.regs[x] = v
				e.instrs(s2, f2, b, i+1, k)
			})
			return
		case *ssa.Next:
			e.next(st, fr, x, func(s2 *State, v Val) {
				f2 := fr.clone()
				f2.regs[x] = v
				e.instrs(s2, f2, b, i+1, k)
			})
			return
		case *ssa.DebugRef:
			e.debugRef(st, fr, x)
		default:
			e.simple(st, fr, in)
		}
	}
	panic(unsupported("block without terminator"))
}

func pack(rs []Val) Val {
	if len(rs) == 1 {
		return rs[0]
	}
	return Tup(rs)
}

func (e *Exec) runDefers(st *State, fr *Frame, k func(*State, *Frame)) {
	if len(fr.defers) == 0 {
		k(st, fr)
		return
	}
	d := fr.defers[len(fr.defers)-1]
	f2 := fr.clone()
	f2.defers = f2.defers[:len(f2.defers)-1]
	e.callWith(st, f2, d.call, d.fn, d.vals, d.pos, func(s2 *State, rs []Val) {
		e.runDefers(s2, f2, k)
	})
}

func (e *Exec) debugRef(st *State, fr *Frame, x *ssa.DebugRef) {
	o := x.Object()
	if o == nil {
		return
	}
	v, ok := o.(*types.Var)
	if !ok || v.IsField() {
		return
	}
	if v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
		return
	}
	val, ok := x.X.(ssa.Value)
	if !ok {
		return
	}
	var r Val
	switch val.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function:
		r = e.val(st, fr, val)
	default:
		rr, ok := fr.regs[val]
		if !ok {
			return
		}
		r = rr
	}
	addr := x.IsAddr
	if a := memVar(x.Parent(), v); a != nil && !addr {
		// a variable that lives in memory: its name stands for the current content
		if m, ok := fr.regs[a]; ok {
			r, addr = m, true
		}
	}
	fr.env[v.Name()] = r
	if addr {
		fr.addr[v.Name()] = true
	} else {
		delete(fr.addr, v.Name())
	}
}

var memVarCache = map[*ssa.Function]map[*types.Var]*ssa.Alloc{}
var memVarMu sync.Mutex

// memVar is the allocation of a variable that has its address taken
func memVar(fn *ssa.Function, v *types.Var) *ssa.Alloc {
	memVarMu.Lock()
	defer memVarMu.Unlock()
	m, ok := memVarCache[fn]
	if !ok {
		m = map[*types.Var]*ssa.Alloc{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if d, ok := in.(*ssa.DebugRef); ok && d.IsAddr {
					if w, ok := d.Object().(*types.Var); ok {
						if a, ok := d.X.(*ssa.Alloc); ok {
							m[w] = a
						}
					}
				}
			}
		}
		memVarCache[fn] = m
	}
	return m[v]
}

// ---------- straight line instructions

func (e *Exec) simple(st *State, fr *Frame, in ssa.Instruction) {
	set := func(v ssa.Value, r Val) { fr.regs[v] = r }
	switch x := in.(type) {
	case *ssa.Alloc:
		et := x.Type().Underlying().(*types.Pointer).Elem()
		var c *Term
		if arr, ok := et.Underlying().(*types.Array); ok {
			s := sortOf(et)
			c = tEmpty(s)
			if arr.Len() > 64 {
				panic(unsupported("large array"))
			}
			for i := int64(0); i < arr.Len(); i++ {
				c = tPush(c, zero(elemSort(s)))
			}
		} else if isOpaque(et) {
			set(x, TV{e.fresh("new_"+x.Comment, "Opq")})
			return
		} else {
			s := sortOf(et)
			if sig, ok := et.Underlying().(*types.Signature); ok {
				_ = sig
				c = tVar("0int", "fncell")
			} else if s == "T_T" {
				c = tVar("T_T { name: lit_empty() }", "T_T")
			} else {
				c = zero(s)
			}
		}
		nm := x.Comment
		if nm == "" {
			nm = "obj"
		}
		o := e.newObj(st, c, nm)
		e.metas[o].goType = et
		set(x, Ptr{L: Loc{obj: o}, GT: x.Type()})
		if x.Comment != "" && x.Parent() == fr.fn {
			fr.env[x.Comment] = Ptr{L: Loc{obj: o}, GT: x.Type()}
			fr.addr[x.Comment] = true
		}
	case *ssa.BinOp:
		set(x, e.binop(st, fr, x))
	case *ssa.UnOp:
		set(x, e.unop(st, fr, x))
	case *ssa.ChangeInterface:
		set(x, e.val(st, fr, x.X))
	case *ssa.ChangeType:
		set(x, e.val(st, fr, x.X))
	case *ssa.Convert:
		set(x, e.convert(st, fr, x))
	case *ssa.MakeInterface:
		v := e.val(st, fr, x.X)
		set(x, IfaceV{t: x.X.Type(), v: v})
	case *ssa.MakeClosure:
		var fv []Val
		for _, b := range x.Bindings {
			fv = append(fv, e.val(st, fr, b))
		}
		set(x, Clo{fn: x.Fn.(*ssa.Function), free: fv})
	case *ssa.MakeMap:
		s := sortOf(x.Type())
		set(x, Mp{Loc{obj: e.newObj(st, tMapEmpty(s), "map")}})
	case *ssa.MakeSlice:
		s := sortOf(x.Type())
		n := e.val(st, fr, x.Len).(TV).T
		e.safe(st, fr, "make-len", tCmp(">=", n, tInt(0)), x.Pos())
		var c *Term
		if v := n.view(); v.Op == "int" && v.I == 0 {
			c = tEmpty(s)
		} else {
			es := elemSort(s)
			z := zero(es)
			c = &Term{Op: "newseq", A: []*Term{n}, Sort: s, S: "Seq::<" + es + ">::new(" + n.S + " as nat, |i: int| " + z.S + ")"}
		}
		set(x, Sl{L: Loc{obj: e.newObj(st, c, "mk")}})
	case *ssa.Slice:
		set(x, e.slice(st, fr, x))
	case *ssa.FieldAddr:
		p := e.val(st, fr, x.X)
		stt := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		f := stt.Field(x.Field)
		switch pp := p.(type) {
		case Ptr:
			if pp.Nil != nil {
				e.safe(st, fr, "nil-deref", tNot(pp.Nil), x.Pos())
			}
			if n := typeName(f.Type()); e.initMode && (n == "sync.Mutex" || n == "sync.RWMutex") {
				set(x, Ptr{L: Loc{obj: e.newObj(st, zero("()"), "lock")}, GT: x.Type()})
				break
			}
			set(x, Ptr{L: pp.L.ext(PE{k: 'f', f: e.fieldOf(st, pp.L, f)}), GT: x.Type()})
		case TV: // opaque handle
			t := e.uninterpApp("opq_field_"+f.Name()+"_"+sanitize(sortOf(f.Type())), sortOf(f.Type()), pp.T)
			o := e.newObj(st, t, f.Name())
			set(x, Ptr{L: Loc{obj: o}, GT: x.Type()})
		default:
			panic(unsupported(fmt.Sprintf("FieldAddr of %T", p)))
		}
	case *ssa.Field:
		t := e.val(st, fr, x.X).(TV).T
		stt := x.X.Type().Underlying().(*types.Struct)
		f := stt.Field(x.Field)
		set(x, e.fromTerm(st, tField(t, fieldName(f.Name())), f.Type(), f.Name()))
	case *ssa.IndexAddr:
		i := e.val(st, fr, x.Index).(TV).T
		switch b := e.val(st, fr, x.X).(type) {
		case Sl:
			c := st.read(b.L)
			e.bounds(st, fr, i, tLen(c), x.Pos())
			set(x, Ptr{L: b.L.ext(PE{k: 'i', t: i}), GT: x.Type()})
		case Ptr: // array
			c := st.read(b.L)
			e.bounds(st, fr, i, tLen(c), x.Pos())
			set(x, Ptr{L: b.L.ext(PE{k: 'i', t: i}), GT: x.Type()})
		case NilV:
			e.safe(st, fr, "index", tFalse, x.Pos())
			c := zero(sortOf(x.X.Type()))
			o := e.newObj(st, c, "nilslice")
			set(x, Ptr{L: Loc{obj: o}.ext(PE{k: 'i', t: i}), GT: x.Type()})
		default:
			panic(unsupported(fmt.Sprintf("IndexAddr of %T", b)))
		}
	case *ssa.Index:
		t := e.toTerm(st, e.val(st, fr, x.X), x.X.Type())
		i := e.val(st, fr, x.Index).(TV).T
		e.bounds(st, fr, i, tLen(t), x.Pos())
		set(x, TV{tIdx(t, i)})
	case *ssa.Lookup:
		set(x, e.lookup(st, fr, x))
	case *ssa.MapUpdate:
		m, ok := e.val(st, fr, x.Map).(Mp)
		if !ok {
			panic(unsupported("update of nil map"))
		}
		e.mapAddressable(st, fr, m, x.Pos())
		mt := x.Map.Type().Underlying().(*types.Map)
		kt := e.toTerm(st, e.val(st, fr, x.Key), mt.Key())
		kt = e.bind(st, "key", kt)
		e.guard(st, fr, m.L, x.Pos())
		cur := st.read(m.L)
		v := e.val(st, fr, x.Value)
		vt := e.toTerm(st, v, mt.Elem())
		e.checkWrite(st, fr, m.L, x.Pos())
		e.write(st, m.L, tMapIns(cur, kt, vt))
		if mv, ok := v.(Mp); ok {
			ml := st.resolve(mv.L)
			if len(ml.path) == 0 {
				st.fwd[ml.obj] = m.L.ext(PE{k: 'k', t: kt})
			}
		}
	case *ssa.Store:
		p := e.val(st, fr, x.Addr)
		switch pp := p.(type) {
		case Ptr:
			if pp.Nil != nil {
				e.safe(st, fr, "nil-deref", tNot(pp.Nil), x.Pos())
			}
			e.guard(st, fr, pp.L, x.Pos())
			e.checkWrite(st, fr, pp.L, x.Pos())
			et := x.Addr.Type().Underlying().(*types.Pointer).Elem()
			e.storeVal(st, fr, pp.L, e.val(st, fr, x.Val), et)
		default:
			// store into an opaque external object: no effect we track
			e.oblige(st, fr, "opaque-store", e.ctr.Props, tBool(e.opaqueStoreOK(fr)), "store into an external object", x.Pos())
		}
	case *ssa.Extract:
		tp, ok := e.val(st, fr, x.Tuple).(Tup)
		if !ok {
			panic(unsupported("extract of non tuple"))
		}
		set(x, tp[x.Index])
	case *ssa.Range:
		v := e.val(st, fr, x.X)
		switch m := v.(type) {
		case Mp:
			c := st.read(m.L)
			ks, _ := mapSorts(c.Sort)
			si := iterStruct(ks)
			ord := e.fresh("order", seqOf(ks))
			e.assume(st, "map-order", tRaw(fmt.Sprintf("map_order(%s, %s)", c.S, ord.S), "bool"))
			o := e.newObj(st, tStruct(si, ord, tInt(0)), "iter")
			set(x, IterV{o, c.S})
			fr.env["iter"] = Ptr{L: Loc{obj: o}}
			fr.addr["iter"] = true
			fr.env["itermap"] = v
		case NilV:
			ks := sortOf(x.X.Type().Underlying().(*types.Map).Key())
			si := iterStruct(ks)
			o := e.newObj(st, tStruct(si, tEmpty(seqOf(ks)), tInt(0)), "iter")
			set(x, IterV{o, ""})
		default:
			panic(unsupported("range over string"))
		}
	default:
		panic(unsupported(fmt.Sprintf("instruction %T %s", in, in)))
	}
}

func (e *Exec) opaqueStoreOK(fr *Frame) bool { return true }

func seqOf(s string) string {
	if s == "int" {
		return Str
	}
	return "Seq<" + s + ">"
}

func iterStruct(ks string) *StructInfo {
	n := "T_Iter_" + sanitize(ks)
	if structs[n] == nil {
		structs[n] = &StructInfo{Name: n, Fields: []string{"order", "i"}, Sorts: []string{seqOf(ks), "int"}}
		userStructs = append(userStructs, n)
	}
	return structs[n]
}

func (e *Exec) fieldOf(st *State, l Loc, f *types.Var) string {
	n := fieldName(f.Name())
	if sortOf(f.Type()) == "()" {
		return n // mutex: never read
	}
	return n
}

func (e *Exec) bounds(st *State, fr *Frame, i, n *Term, pos token.Pos) {
	e.safe(st, fr, "index", tAnd(tCmp("<=", tInt(0), i), tCmp("<", i, n)), pos)
}

func (e *Exec) mapAddressable(st *State, fr *Frame, m Mp, pos token.Pos) {
	// writing through an inner map requires it to exist
	l := st.resolve(m.L)
	for i, p := range l.path {
		if p.k == 'k' {
			outer := readPath(st.heap[l.obj], l.path[:i])
			e.safe(st, fr, "nil-map-write", tMapHas(outer, p.t), pos)
		}
	}
}

func (e *Exec) lookup(st *State, fr *Frame, x *ssa.Lookup) Val {
	xv := e.val(st, fr, x.X)
	if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		t := xv.(TV).T
		i := e.val(st, fr, x.Index).(TV).T
		e.bounds(st, fr, i, tLen(t), x.Pos())
		return TV{tIdx(t, i)}
	}
	mt := x.X.Type().Underlying().(*types.Map)
	kt := e.toTerm(st, e.val(st, fr, x.Index), mt.Key())
	vs := sortOf(mt.Elem())
	m, ok := xv.(Mp)
	if !ok { // nil map
		z := e.fromTerm(st, zero(vs), mt.Elem(), "zero")
		if x.CommaOk {
			return Tup{z, TV{tFalse}}
		}
		return z
	}
	e.guard(st, fr, m.L, x.Pos())
	kt = e.bind(st, "key", kt)
	c := e.readMap(st, m.L)
	has := tMapHas(c, kt)
	var v Val
	if _, ok := mt.Elem().Underlying().(*types.Map); ok {
		v = Mp{m.L.ext(PE{k: 'k', t: kt})}
	} else {
		v = e.fromTerm(st, tIte(has, tMapGet(c, kt), zero(vs)), mt.Elem(), "elem")
	}
	if x.CommaOk {
		return Tup{v, TV{has}}
	}
	return v
}

// readMap reads a map, treating a missing inner map as the empty (nil) map
func (e *Exec) readMap(st *State, l Loc) *Term {
	l = st.resolve(l)
	t := st.heap[l.obj]
	for i, p := range l.path {
		if p.k == 'k' {
			has := tMapHas(t, p.t)
			nt := readPath(t, l.path[i:i+1])
			if strings.HasPrefix(nt.Sort, "Map<") {
				t = tIte(has, nt, tMapEmpty(nt.Sort))
				continue
			}
			t = nt
			continue
		}
		t = readPath(t, l.path[i:i+1])
	}
	return t
}

func (e *Exec) next(st *State, fr *Frame, x *ssa.Next, k func(*State, Val)) {
	if x.IsString {
		panic(unsupported("range over string"))
	}
	it := e.val(st, fr, x.Iter).(IterV)
	c := st.heap[it.obj]
	ord, i := tField(c, "order"), tField(c, "i")
	if e.dryDepth == 0 {
		e.assume(st, "map-iter", tAnd(tCmp("<=", tInt(0), i), tCmp("<=", i, tLen(ord))))
	}
	more := tCmp("<", i, tLen(ord))
	rng := x.Iter.(*ssa.Range)
	mt := rng.X.Type().Underlying().(*types.Map)
	e.fork(st, more, func(s2 *State, v bool) {
		f2 := fr
		if !v {
			k(s2, Tup{TV{tFalse}, NilV{}, NilV{}})
			return
		}
		key := tIdx(ord, i)
		s2.heap[it.obj] = tSetField(c, "i", tArith("+", i, tInt(1)))
		var val Val = NilV{}
		if m, ok := e.val(s2, f2, rng.X).(Mp); ok {
			mc := e.readMap(s2, m.L)
			if st.read(m.L).S != it.m {
				panic(unsupported("a map that changes while it is ranged over"))
			}
			e.assume(s2, "map-key", tMapHas(mc, key))
			if _, ok := mt.Elem().Underlying().(*types.Map); ok {
				val = Mp{m.L.ext(PE{k: 'k', t: key})}
			} else {
				val = e.fromTerm(s2, tMapGet(mc, key), mt.Elem(), "elem")
			}
		}
		k(s2, Tup{TV{tTrue}, e.fromTerm(s2, key, mt.Key(), "key"), val})
	})
}

func (e *Exec) binop(st *State, fr *Frame, x *ssa.BinOp) Val {
	a, b := e.val(st, fr, x.X), e.val(st, fr, x.Y)
	switch x.Op {
	case token.EQL, token.NEQ:
		r := e.equal(st, fr, a, b, x.X.Type(), x.Y.Type())
		if x.Op == token.NEQ {
			r = tNot(r)
		}
		return TV{r}
	}
	ta, tb := e.toTerm(st, a, x.X.Type()), e.toTerm(st, b, x.Y.Type())
	switch x.Op {
	case token.ADD:
		if ta.Sort == Str && isStringType(x.X.Type()) {
			return TV{tCat(ta, tb)}
		}
		return TV{tArith("+", ta, tb)}
	case token.SUB:
		return TV{tArith("-", ta, tb)}
	case token.MUL:
		return TV{tArith("*", ta, tb)}
	case token.QUO:
		e.safe(st, fr, "div-zero", tNot(tEq(tb, tInt(0))), x.Pos())
		return TV{tApp("go_div", "int", ta, tb)}
	case token.REM:
		e.safe(st, fr, "div-zero", tNot(tEq(tb, tInt(0))), x.Pos())
		return TV{tApp("go_rem", "int", ta, tb)}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isStringType(x.X.Type()) {
			l := e.uninterpApp("str_less", "bool", ta, tb)
			switch x.Op {
			case token.LSS:
				return TV{l}
			case token.GTR:
				return TV{e.uninterpApp("str_less", "bool", tb, ta)}
			case token.LEQ:
				return TV{tNot(e.uninterpApp("str_less", "bool", tb, ta))}
			default:
				return TV{tNot(l)}
			}
		}
		return TV{tCmp(x.Op.String(), ta, tb)}
	case token.AND, token.OR, token.SHL, token.SHR, token.XOR, token.AND_NOT:
		if va, vb := ta.view(), tb.view(); va.Op == "int" && vb.Op == "int" {
			switch x.Op {
			case token.AND:
				return TV{tInt(va.I & vb.I)}
			case token.OR:
				return TV{tInt(va.I | vb.I)}
			case token.SHL:
				return TV{tInt(va.I << uint(vb.I))}
			}
		}
		return TV{e.uninterpApp("bitop_"+sanitize(fmt.Sprint(int(x.Op))), "int", ta, tb)}
	}
	panic(unsupported("binop " + x.Op.String()))
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (e *Exec) equal(st *State, fr *Frame, a, b Val, ta, tb types.Type) *Term {
	if _, ok := a.(NilV); ok {
		a, b = b, a
		ta, tb = tb, ta
	}
	if _, ok := b.(NilV); ok {
		switch x := a.(type) {
		case NilV:
			return tTrue
		case Ptr:
			if x.Nil == nil {
				return tFalse
			}
			return x.Nil
		case Mp:
			return tFalse
		case Sl:
			// nil and empty slices are identified
			return tEq(tLen(st.read(x.L)), tInt(0))
		case Clo:
			return tFalse
		case IfaceV:
			return tFalse
		case TV:
			switch {
			case x.T.Sort == "Any":
				return tEq(x.T, tNil)
			case x.T.Sort == "Opq":
				return tEq(x.T, zero("Opq"))
			case strings.HasPrefix(x.T.Sort, "Option<"):
				return tIsNone(x.T)
			case strings.HasPrefix(x.T.Sort, "spec_fn"):
				return e.uninterpApp("fn_is_nil_"+sanitize(x.T.Sort), "bool", x.T)
			case x.T.Sort == "T_Matcher":
				return tFalse
			}
			panic(unsupported("nil comparison of " + x.T.Sort))
		}
		panic(unsupported(fmt.Sprintf("nil comparison of %T", a)))
	}
	pa, ok1 := a.(Ptr)
	pb, ok2 := b.(Ptr)
	if ok1 && ok2 {
		return tBool(pa.L.key() == pb.L.key())
	}
	sa, sb := sortOf(ta), sortOf(tb)
	s := sa
	if sa == "Any" || sb == "Any" {
		s = "Any"
	}
	return tEq(e.toSort(st, a, s, ta), e.toSort(st, b, s, tb))
}

func (e *Exec) unop(st *State, fr *Frame, x *ssa.UnOp) Val {
	v := e.val(st, fr, x.X)
	switch x.Op {
	case token.MUL:
		p, ok := v.(Ptr)
		if !ok {
			if tv, ok := v.(TV); ok && tv.T.Sort == "Opq" {
				return TV{e.uninterpApp("opq_deref_"+sanitize(sortOf(x.Type())), sortOf(x.Type()), tv.T)}
			}
			panic(unsupported(fmt.Sprintf("deref of %T", v)))
		}
		if p.Nil != nil {
			e.safe(st, fr, "nil-deref", tNot(p.Nil), x.Pos())
		}
		if _, ok := x.Type().Underlying().(*types.Signature); ok {
			l := st.resolve(p.L)
			if c, ok := st.cells[l.obj]; ok && len(l.path) == 0 {
				return c
			}
		}
		e.guard(st, fr, p.L, x.Pos())
		return e.loadVal(st, p.L, x.Type())
	case token.NOT:
		return TV{tNot(v.(TV).T)}
	case token.SUB:
		return TV{tArith("-", tInt(0), v.(TV).T)}
	}
	panic(unsupported("unop " + x.Op.String()))
}

func (e *Exec) convert(st *State, fr *Frame, x *ssa.Convert) Val {
	v := e.val(st, fr, x.X)
	from, to := x.X.Type().Underlying(), x.Type().Underlying()
	_, toSl := to.(*types.Slice)
	_, fromSl := from.(*types.Slice)
	switch {
	case isStringType(x.X.Type()) && toSl:
		return Sl{L: Loc{obj: e.newObj(st, e.toTerm(st, v, x.X.Type()), "bytes")}}
	case fromSl && isStringType(x.Type()):
		return TV{e.toTerm(st, v, x.X.Type())}
	case sortOf(x.Type()) == Str && sortOf(x.X.Type()) == "int":
		return TV{e.uninterpApp("string_of_rune", Str, v.(TV).T)}
	}
	if tv, ok := v.(TV); ok {
		return tv
	}
	return v
}

func (e *Exec) slice(st *State, fr *Frame, x *ssa.Slice) Val {
	v := e.val(st, fr, x.X)
	var c *Term
	ro := false
	isStr := false
	switch b := v.(type) {
	case Sl:
		c = st.read(b.L)
		m := e.metas[st.resolve(b.L).obj]
		ro = b.RO || (m != nil && m.caller)
	case Ptr:
		c = st.read(b.L)
		if x.Low == nil && x.High == nil {
			return Sl{L: b.L}
		}
	case TV:
		c = b.T
		isStr = true
	case NilV:
		c = zero(sortOf(x.X.Type()))
	}
	lo, hi := tInt(0), tLen(c)
	if x.Low != nil {
		lo = e.val(st, fr, x.Low).(TV).T
	}
	if x.High != nil {
		hi = e.val(st, fr, x.High).(TV).T
	}
	// strict: no reslicing beyond the length
	e.safe(st, fr, "slice", tAnd(tAnd(tCmp("<=", tInt(0), lo), tCmp("<=", lo, hi)), tCmp("<=", hi, tLen(c))), x.Pos())
	r := e.bind(st, "sub", tSub(c, lo, hi))
	if isStr {
		return TV{r}
	}
	if x.Low == nil && x.High == nil {
		if b, ok := v.(Sl); ok {
			return b
		}
	}
	o := e.newObj(st, r, "sub")
	e.metas[o].caller = ro
	e.metas[o].sliceOf = "the slice it was cut from"
	e.metas[o].cut = x.High != nil && x.Max == nil
	return Sl{L: Loc{obj: o}, RO: ro}
}

func (e *Exec) typeAssert(st *State, fr *Frame, x *ssa.TypeAssert, k func(*State, Val)) {
	v := e.val(st, fr, x.X)
	var ok *Term
	var r Val
	_, isTP := types.Unalias(x.AssertedType).(*types.TypeParam)
	if iv, is := v.(IfaceV); is && !isTP {
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			ok, r = tBool(types.Implements(iv.t, it)), v
		} else {
			same := types.Identical(iv.t, x.AssertedType)
			ok = tBool(same)
			if same {
				r = iv.v
			} else {
				r = e.fromTerm(st, zero(sortOf(x.AssertedType)), x.AssertedType, "ta")
			}
		}
	} else {
		t := e.toTerm(st, v, x.X.Type())
		if t.Sort == "T_GoDecl" && sortOf(x.AssertedType) == "Option<T_GoDecl>" {
			e.fork(st, tField(t, "isfunc"), func(s2 *State, b bool) {
				var r Val = NilV{}
				if b {
					r = Ptr{L: Loc{obj: e.newObj(s2, t, "decl")}}
				}
				if x.CommaOk {
					r = Tup{r, TV{tBool(b)}}
				} else if !b {
					e.oblige(s2, fr, "safety:type-assertion", nil, tFalse, "type assertion", x.Pos())
					return
				}
				k(s2, r)
			})
			return
		}
		if t.Sort != "Any" {
			panic(unsupported("type assertion on " + t.Sort))
		}
		s := sortOf(x.AssertedType)
		sh := types.TypeString(x.AssertedType, func(p *types.Package) string { return p.Name() })
		switch {
		case sh == "string":
			ok = tRaw(t.S+" is S", "bool")
			r = TV{tRaw(t.S+"->S_0", Str)}
		case sh == "[]byte" || sh == "[]uint8":
			ok = tRaw(t.S+" is B", "bool")
			o := e.newObj(st, tRaw(t.S+"->B_0", Str), "bytes")
			e.metas[o].caller = true
			r = Sl{L: Loc{obj: o}, RO: true}
		default:
			ok = e.uninterpApp("any_is_"+sanitize(sh), "bool", t)
			if _, isI := x.AssertedType.Underlying().(*types.Interface); !isI {
				e.typeAssertAxiom(st, sh, t, ok)
			}
			r = e.fromTerm(st, e.uninterpApp("any_as_"+sanitize(sh), s, t), x.AssertedType, "ta")
		}
	}
	if x.CommaOk {
		z := zero(sortOf(x.AssertedType))
		e.fork(st, ok, func(s2 *State, b bool) {
			if b {
				k(s2, Tup{r, TV{tTrue}})
			} else {
				k(s2, Tup{e.fromTerm(s2, z, x.AssertedType, "z"), TV{tFalse}})
			}
		})
		return
	}
	e.safe(st, fr, "type-assert", ok, x.Pos())
	k(st, r)
}

func (e *Exec) typeAssertAxiom(st *State, sh string, t, ok *Term) {
	// other dynamic types exclude string and []byte
	e.assume(st, "dyn-type", tRaw(fmt.Sprintf("%s ==> !(%s is S) && !(%s is B)", ok.S, t.S, t.S), "bool"))
}

// ---------- guards

func (e *Exec) guard(st *State, fr *Frame, l Loc, pos token.Pos) {
	l = st.resolve(l)
	m := e.metas[l.obj]
	if m == nil || !m.shared || e.ctr.Single {
		return
	}
	// find a guarded field on the path
	for i, p := range l.path {
		if p.k != 'f' {
			continue
		}
		base := readPath(st.heap[l.obj], l.path[:i])
		for _, ld := range e.cs.Locks {
			if ld.Lock != base.Sort {
				continue
			}
			for _, g := range ld.Guards {
				if g+"_" == p.f {
					key := Loc{l.obj, l.path[:i]}.key()
					held := st.locks[key] > 0
					if held {
						return
					}
					e.oblige(st, fr, "lock-held:"+g, lockProps(e.ctr), tFalse, fmt.Sprintf("%s is accessed with the lock of %s held", g, base.Sort), pos)
				}
			}
		}
	}
}

func lockProps(c *Contract) []string {
	for _, p := range c.Props {
		if p == "C06" {
			return []string{"C06"}
		}
	}
	return c.Props
}

func (e *Exec) checkWrite(st *State, fr *Frame, l Loc, pos token.Pos) {
	l = st.resolve(l)
	m := e.metas[l.obj]
	if m == nil {
		return
	}
	if st.facts[fmt.Sprint("frozen ", l.obj)] {
		panic(unsupported("write to an object that is also held by a container"))
	}
	for i, p := range l.path {
		if p.k == 'o' && (i > 0 || !m.shared && m.copyOf) {
			panic(unsupported("write through a pointer loaded from a container"))
		}
	}
	if m.origins != nil && len(l.path) > 0 && l.path[0].k == 'i' {
		// the elements may be shared with what the callee was given
		for _, o := range m.origins {
			cur := st.read(o)
			st.writeRaw(o, e.fresh("shared", cur.Sort))
		}
	} else if m.sliceOf != "" && len(l.path) > 0 && l.path[0].k == 'i' {
		panic(unsupported("element write through a slice that is shared with " + m.sliceOf))
	}
	if m.caller {
		e.oblige(st, fr, "frame:caller-bytes", []string{"C15"}, tFalse, "the bytes passed in by the caller are not written", pos)
	}
}

// lock operations
func (e *Exec) lockObj(st *State, v Val) (string, Loc, string) {
	p, ok := v.(Ptr)
	if !ok {
		panic(unsupported("lock of unknown object"))
	}
	l := st.resolve(p.L)
	// address of an embedded mutex: strip the last field
	if n := len(l.path); n > 0 && l.path[n-1].k == 'f' {
		b := Loc{l.obj, l.path[:n-1]}
		base := readPath(st.heap[l.obj], b.path)
		return b.key(), b, base.Sort
	}
	return l.key(), l, e.metas[l.obj].name
}

func (e *Exec) acquire(st *State, fr *Frame, v Val, write bool, pos token.Pos) {
	key, l, kind := e.lockObj(st, v)
	e.lockNames[key] = kind
	e.oblige(st, fr, "lock-order", lockProps(e.ctr), tBool(st.locks[key] == 0), "the lock is not already held", pos)
	if write {
		st.locks[key] = 2
	} else {
		st.locks[key] = 1
	}
	before := st.clone()
	found := false
	for _, ld := range e.cs.Locks {
		if ld.Lock != kind {
			continue
		}
		found = true
		for _, g := range ld.Guards {
			if e.ctr.Single {
				if cur, ok := st.ghost[g]; ok {
					st.acq[g] = cur
				}
				continue
			}
			if _, ok := st.ghost[g]; ok {
				st.ghost[g] = e.fresh("acq_"+g, st.ghost[g].Sort)
				st.acq[g] = st.ghost[g]
				continue
			}
			if e.metas[l.obj].shared {
				base := readPath(st.heap[l.obj], l.path)
				if structs[base.Sort] != nil && structs[base.Sort].idx(g+"_") >= 0 {
					fs := structs[base.Sort].Sorts[structs[base.Sort].idx(g+"_")]
					n := e.fresh("acq_"+g, fs)
					st.writeRaw(l.ext(PE{k: 'f', f: g + "_"}), n)
					st.acq[l.key()+"."+g] = n
				}
			}
		}
		st.acq["obj"+strconv.Itoa(l.obj)] = st.heap[l.obj]
		for _, in := range ld.Invs {
			if t := e.lockInv(st, l, in); t != nil {
				e.assume(st, "lock invariant "+in.Name, t)
			}
		}
	}
	if found && !e.ctr.Single {
		for _, r := range e.ctr.Rely {
			ctx := e.frameCtx(st, fr)
			ctx.sub["bef"] = e.frameCtx(before, fr)
			t, err := ctx.trySubst(r.Text)
			if err != nil {
				continue
			}
			e.assume(st, "rely "+r.Name, tRaw(t, "bool"))
		}
	}
}

// lockInv: a lock invariant over the object at l
func (e *Exec) lockInv(st *State, l Loc, in *Clause) *Term {
	ctx := &Ctx{e: e, st: st, names: map[string]Val{"o": Ptr{L: l}}, types: map[string]types.Type{}, sub: map[string]*Ctx{}}
	t, err := ctx.trySubst(in.Text)
	if err != nil {
		panic(unsupported("lock invariant " + in.Name + ": " + err.Error()))
	}
	return tRaw(t, "bool")
}

func (e *Exec) release(st *State, fr *Frame, v Val, write bool, pos token.Pos) {
	key, l, kind := e.lockObj(st, v)
	want := 1
	if write {
		want = 2
	}
	for _, ld := range e.cs.Locks {
		if ld.Lock != kind {
			continue
		}
		for _, in := range ld.Invs {
			if t := e.lockInv(st, l, in); t != nil {
				e.oblige(st, fr, "lock-invariant:"+in.Name, e.ctr.Props, t, in.Text, pos)
			}
		}
	}
	e.oblige(st, fr, "unlock-held", lockProps(e.ctr), tBool(st.locks[key] == want), "the lock being released is held", pos)
	st.locks[key] = 0
}

// ---------- loops

func loopBlocks(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	in := map[*ssa.BasicBlock]bool{h: true}
	var stack []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) && !in[p] {
			in[p] = true
			stack = append(stack, p)
		}
	}
	for len(stack) > 0 {
		b := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		for _, p := range b.Preds {
			if !in[p] {
				in[p] = true
				stack = append(stack, p)
			}
		}
	}
	return in
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	best := token.NoPos
	for blk := range loopBlocks(b) {
		for _, in := range blk.Instrs {
			if _, isPhi := in.(*ssa.Phi); isPhi {
				continue // its position is that of the variable
			}
			p := in.Pos()
			if d, ok := in.(*ssa.DebugRef); ok {
				p = d.Expr.Pos()
			}
			if p.IsValid() && (best == token.NoPos || p < best) {
				best = p
			}
		}
	}
	return best
}

func loopIndex(fn *ssa.Function, h *ssa.BasicBlock) int {
	var hs []*ssa.BasicBlock
	for _, b := range fn.Blocks {
		if isHeader(b) {
			hs = append(hs, b)
		}
	}
	sort.SliceStable(hs, func(i, j int) bool {
		pi, pj := blockPos(hs[i]), blockPos(hs[j])
		if pi != pj {
			return pi < pj
		}
		// same start: the larger (outer) loop first
		return len(loopBlocks(hs[i])) > len(loopBlocks(hs[j]))
	})
	for i, b := range hs {
		if b == h {
			return i
		}
	}
	return -1
}

func (e *Exec) findLoop(fr *Frame, h *ssa.BasicBlock) *LoopSpec {
	if e.planned {
		if s := e.loopPlan[h]; s != nil {
			return s
		}
		if c := gone[shortName(fr.fn)]; c != nil {
			return c.Loops[strconv.Itoa(loopIndex(fr.fn, h))]
		}
		return nil
	}
	idx := loopIndex(fr.fn, h)
	if fr.fn == e.fn {
		if s := e.ctr.Loops[strconv.Itoa(idx)]; s != nil {
			return s
		}
		return nil
	}
	nm := fr.fn.Name()
	if s := e.ctr.Loops[nm+"."+strconv.Itoa(idx)]; s != nil {
		return s
	}
	// closures of the function under contract: nameless key
	if i := strings.Index(nm, "$"); i >= 0 {
		if s := e.ctr.Loops[nm[i:]+"."+strconv.Itoa(idx)]; s != nil {
			return s
		}
	}
	return nil
}

// statable: the first of the alternatives of a loop specification that names what this code has
func (e *Exec) statable(st *State, fr *Frame, lc *loopCtx) *LoopSpec {
	first := lc.spec
	for i, s := 2, first; s != nil; i++ {
		lc.spec = s
		ctx := e.loopCtxFor(st, fr, lc)
		ok := true
		for _, c := range s.Invs {
			if _, err := ctx.trySubst(c.Text); err != nil {
				ok = false
			}
		}
		if ok {
			return s
		}
		s = nil
		for _, c := range []*Contract{e.ctr, gone[shortName(fr.fn)]} {
			if c != nil && s == nil {
				s = c.Loops[fmt.Sprintf("%s~%d", first.Key, i)]
			}
		}
	}
	return first
}

func (e *Exec) loopHeader(st *State, fr *Frame, h, pred *ssa.BasicBlock, k cont) {
	if lc := fr.loops[h]; lc != nil && pred != nil && h.Dominates(pred) {
		// back edge
		e.phis(st, fr, h, pred)
		if lc.dry != nil {
			e.recordDry(st, lc)
			return
		}
		if lc.spec != nil {
			e.checkInv(st, fr, lc, "maintain")
		}
		e.checkAuto(st, fr, lc, "maintain")
		e.endPath(st, false, fr)
		return
	}
	// entry
	e.phis(st, fr, h, pred)
	spec := e.findLoop(fr, h)
	idx := loopIndex(fr.fn, h)
	name := fmt.Sprintf("%s#%d", fr.fn.Name(), idx)
	if e.dryDepth == 0 {
		if spec != nil {
			spec.used = true
			e.loopsSeen = append(e.loopsSeen, name)
		} else {
			e.loopsNoSpec = append(e.loopsNoSpec, name)
		}
	}
	lc := &loopCtx{header: h, spec: spec, pre: st.clone(), preEnv: map[string]Val{}}
	for n, v := range fr.env {
		lc.preEnv[n] = v
	}
	lc.win = e.window(st, fr, lc)
	if spec != nil {
		spec = e.statable(st, fr, lc)
		lc.spec = spec
	}
	// discover what the loop modifies
	dry := &dryInfo{fields: map[int]map[string]bool{}, objs: map[int]*Term{}, ghosts: map[string]bool{}}
	for round := 0; ; round++ {
		if round > 8 {
			panic(unsupported("loop write set does not stabilise"))
		}
		before := dry.size()
		s2, f2 := st.clone(), fr.clone()
		lc2 := &loopCtx{header: h, spec: nil, pre: lc.pre, preEnv: lc.preEnv, dry: dry}
		f2.loops[h] = lc2
		e.dryDepth++
		e.havocLoop(s2, f2, lc2, dry)
		lc2.head = s2.clone()
		e.instrs(s2, f2, h, 0, func(*State, []Val) {})
		e.dryDepth--
		if dry.size() == before && round > 0 {
			break
		}
	}
	f2 := fr.clone()
	f2.loops[h] = lc
	lc.auto = append(e.autoInvs(st, f2, h), e.autoUpper(st, f2, lc, dry)...)
	// entry obligations
	if spec != nil {
		e.checkInvEntry(st, f2, lc)
	}
	e.checkAuto(st, f2, lc, "entry")
	e.havocLoop(st, f2, lc, dry)
	lc.head = st.clone()
	lc.headEnv = map[string]Val{}
	for n, v := range f2.env {
		lc.headEnv[n] = v
	}
	if spec != nil {
		e.assumeInv(st, f2, lc)
	}
	for _, a := range lc.auto {
		if tv, ok := f2.regs[a.phi].(TV); ok {
			e.assume(st, a.nm, a.f(st, tv.T))
		}
	}
	e.instrs(st, f2, h, 0, k)
}

func (d *dryInfo) size() int {
	n := len(d.ghosts)
	for _, f := range d.fields {
		n += len(f) + 1
	}
	return n
}

func (e *Exec) recordDry(st *State, lc *loopCtx) {
	for o, old := range lc.head.heap {
		nw := st.heap[o]
		if nw == nil || nw.S == old.S {
			continue
		}
		e.diffFields(lc.dry, o, "", old, nw)
	}
	for g, old := range lc.head.ghost {
		if st.ghost[g].S != old.S {
			lc.dry.ghosts[g] = true
		}
	}
	for o, v := range st.cells {
		if w, ok := lc.head.cells[o]; ok || lc.head.heap[o] != nil {
			p, isP := v.(Ptr)
			q, isQ := w.(Ptr)
			if c, isC := v.(Clo); isC {
				if d, isD := w.(Clo); isD && c.fn == d.fn {
					continue
				}
			}
			if !isP || !isQ || p.L.key() != q.L.key() {
				panic(unsupported("a pointer variable is assigned inside a loop"))
			}
		}
	}
	for o := range st.fwd {
		if _, ok := lc.head.fwd[o]; !ok {
			if _, exists := lc.head.heap[o]; exists {
				panic(unsupported("map moved into a container inside a loop"))
			}
		}
	}
	for l, v := range st.locks {
		if lc.head.locks[l] != v {
			panic(unsupported("lock state changes across a loop iteration"))
		}
	}
}

func (e *Exec) diffFields(d *dryInfo, o int, prefix string, old, nw *Term) {
	if d.fields[o] == nil {
		d.fields[o] = map[string]bool{}
	}
	if si := structs[old.Sort]; si != nil && prefix == "" {
		for _, f := range si.Fields {
			if tField(old, f).S != tField(nw, f).S {
				d.fields[o][f] = true
			}
		}
		return
	}
	d.fields[o]["*"] = true
}

func (e *Exec) havocLoop(st *State, fr *Frame, lc *loopCtx, dry *dryInfo) {
	for _, in := range lc.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		nm := phi.Comment
		if nm == "" {
			nm = phi.Name()
		}
		v := fr.regs[phi]
		nv := e.havocVal(st, v, phi.Type(), nm)
		fr.regs[phi] = nv
		if phi.Comment != "" {
			fr.env[phi.Comment] = nv
			delete(fr.addr, phi.Comment)
		}
	}
	for o, fs := range dry.fields {
		c := st.heap[o]
		if c == nil {
			continue
		}
		nm := e.metas[o].name
		if fs["*"] {
			st.heap[o] = e.fresh(nm, c.Sort)
			continue
		}
		si := structs[c.Sort]
		for _, f := range si.Fields {
			if fs[f] {
				c = tSetField(c, f, e.fresh(nm+"_"+f, si.Sorts[si.idx(f)]))
			}
		}
		st.heap[o] = c
	}
	for g := range dry.ghosts {
		st.ghost[g] = e.fresh(g, st.ghost[g].Sort)
	}
}

func (e *Exec) havocVal(st *State, v Val, t types.Type, nm string) Val {
	switch x := v.(type) {
	case Ptr:
		// a pointer carried around a loop: must be the same object; otherwise unsupported
		if sortOf(t) == "Opq" {
			return TV{e.fresh(nm, "Opq")}
		}
		s := sortOf(t)
		_ = x
		return e.fromTerm(st, e.fresh(nm, s), t, nm)
	case Sl:
		m := e.metas[st.resolve(x.L).obj]
		r := e.fromTerm(st, e.fresh(nm, sortOf(t)), t, nm)
		if y, ok := r.(Sl); ok {
			e.metas[y.L.obj].sliceOf, e.metas[y.L.obj].origins, e.metas[y.L.obj].caller = m.sliceOf, m.origins, m.caller
		}
		return r
	case Mp:
		if len(st.resolve(x.L).path) > 0 {
			panic(unsupported("a map held by a container is carried around a loop"))
		}
	case NilV:
		r := e.fromTerm(st, e.fresh(nm, sortOf(t)), t, nm)
		if y, ok := r.(Sl); ok {
			e.metas[y.L.obj].sliceOf = ""
		}
		return r
	}
	return e.fromTerm(st, e.fresh(nm, sortOf(t)), t, nm)
}

// automatic invariants for counters: init constant, step +1
func (e *Exec) autoInvs(st *State, fr *Frame, h *ssa.BasicBlock) []autoInv {
	var out []autoInv
	for _, in := range h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if sortOf(phi.Type()) != "int" {
			continue
		}
		var init *Term
		step, neg := true, true
		for i, p := range h.Preds {
			if h.Dominates(p) {
				bo, ok := phi.Edges[i].(*ssa.BinOp)
				if !ok || bo.X != phi {
					step, neg = false, false
					continue
				}
				c, ok := bo.Y.(*ssa.Const)
				if !ok || c.Value == nil || c.Int64() <= 0 {
					step, neg = false, false
					continue
				}
				if bo.Op != token.ADD {
					step = false
				}
				if bo.Op != token.SUB {
					neg = false
				}
			} else {
				v, ok := fr.regs[phi]
				if ok {
					init = v.(TV).T
				}
			}
		}
		if init == nil {
			continue
		}
		init0 := init
		if step {
			out = append(out, autoInv{phi, func(st *State, v *Term) *Term { return tCmp("<=", init0, v) }, "auto-lower"})
		} else if neg {
			out = append(out, autoInv{phi, func(st *State, v *Term) *Term { return tCmp("<=", v, init0) }, "auto-upper"})
		}
		if phi.Comment == "rangeindex" {
			// header: t = phi+1; c = t < len; if c
			for _, in2 := range h.Instrs {
				bo, ok := in2.(*ssa.BinOp)
				if !ok || bo.Op != token.LSS {
					continue
				}
				lv, ok := bo.Y.(ssa.Value)
				if !ok {
					continue
				}
				if _, isC := lv.(*ssa.Const); !isC {
					if _, set := fr.regs[lv]; !set {
						continue
					}
				}
				n := e.val(st, fr, lv).(TV).T
				out = append(out, autoInv{phi, func(st *State, v *Term) *Term { return tCmp("<", v, tIte(tCmp("<", n, tInt(0)), tInt(0), n)) }, "auto-range"})
			}
		}
	}
	return out
}

// headBound is the right side of a test at the loop head
func (e *Exec) headBound(st *State, fr *Frame, h *ssa.BasicBlock, bo *ssa.BinOp) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupportedErr); !ok {
				panic(r)
			}
		}
	}()
	s2, f2 := st.clone(), fr.clone()
	e.dryDepth++
	defer func() { e.dryDepth-- }()
	for _, in := range h.Instrs {
		switch x := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.BinOp:
			if x == bo {
				return e.val(s2, f2, bo.Y).(TV).T
			}
			return nil
		case *ssa.DebugRef:
			continue
		case *ssa.UnOp, *ssa.FieldAddr, *ssa.Field:
			e.simple(s2, f2, in)
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" {
				return nil
			}
			e.call(s2, f2, &x.Call, x, func(s3 *State, rs []Val) {
				if len(rs) == 1 {
					f2.regs[x] = rs[0]
				}
			})
		default:
			return nil
		}
	}
	return nil
}

// autoUpper: a counter that is compared with something the loop leaves alone stays within it
func (e *Exec) autoUpper(st *State, fr *Frame, lc *loopCtx, dry *dryInfo) []autoInv {
	h := lc.header
	var out []autoInv
	for _, in := range h.Instrs {
		bo, ok := in.(*ssa.BinOp)
		if !ok || bo.Op != token.LSS {
			continue
		}
		phi, ok := bo.X.(*ssa.Phi)
		if !ok || phi.Block() != h || phi.Comment == "rangeindex" || sortOf(phi.Type()) != "int" {
			continue
		}
		one := true
		var init *Term
		for i, p := range h.Preds {
			if !h.Dominates(p) {
				if v, ok := fr.regs[phi].(TV); ok {
					init = v.T
				}
				continue
			}
			b, ok := phi.Edges[i].(*ssa.BinOp)
			if !ok || b.X != phi || b.Op != token.ADD {
				one = false
				break
			}
			k, ok := b.Y.(*ssa.Const)
			one = one && ok && k.Value != nil && k.Int64() == 1
		}
		if !one || init == nil {
			continue
		}
		n := e.headBound(st, fr, h, bo)
		s2, f2 := st.clone(), fr.clone()
		lc2 := &loopCtx{header: h, pre: lc.pre, preEnv: lc.preEnv}
		e.dryDepth++
		e.havocLoop(s2, f2, lc2, dry)
		m := e.headBound(s2, f2, h, bo)
		e.dryDepth--
		if n == nil || m == nil || n.S != m.S {
			continue
		}
		out = append(out, autoInv{phi, func(st *State, v *Term) *Term {
			return tCmp("<=", v, tIte(tCmp("<", n, init), init, n))
		}, "auto-bound"})
	}
	return out
}

func (e *Exec) checkAuto(st *State, fr *Frame, lc *loopCtx, when string) {
	for _, a := range lc.auto {
		tv, ok := fr.regs[a.phi].(TV)
		if !ok {
			continue
		}
		t := a.f(st, tv.T)
		if a.nm == "auto-range" && when == "entry" {
			// -1 < len
			if isT(t) {
				continue
			}
		}
		if isT(t) {
			continue
		}
		e.oblige(st, fr, fmt.Sprintf("loop:%s:%s", a.nm, when), e.ctr.Props, t, "automatic loop bound", a.phi.Pos())
	}
}

func (e *Exec) checkInvEntry(st *State, fr *Frame, lc *loopCtx) {
	ctx := e.loopCtxFor(st, fr, lc)
	for _, h := range lc.spec.Init {
		e.hint(st, ctx, h)
	}
	for _, c := range lc.spec.Invs {
		t, err := ctx.trySubst(c.Text)
		if err != nil && goneName(err) {
			// a proof aid about a local this code no longer keeps at this point: go on without it
			if lc.dropped == nil {
				lc.dropped = map[string]bool{}
			}
			lc.dropped[c.Name] = true
			continue
		}
		if err != nil {
			e.oblige(st, fr, "inv-entry:"+c.Name, c.Props, tFalse, "invariant cannot be stated on this code: "+err.Error(), blockPos(lc.header))
			continue
		}
		e.oblige(st, fr, "inv-entry:"+c.Name, c.Props, tRaw(t, "bool"), c.Text, blockPos(lc.header))
	}
}

func (e *Exec) checkInv(st *State, fr *Frame, lc *loopCtx, when string) {
	ctx := e.loopCtxFor(st, fr, lc)
	for _, h := range lc.spec.Hints {
		e.hint(st, ctx, h)
	}
	for _, c := range lc.spec.Invs {
		if lc.dropped[c.Name] {
			continue
		}
		t, err := ctx.trySubst(c.Text)
		if err != nil {
			e.oblige(st, fr, "inv-maintain:"+c.Name, c.Props, tFalse, "invariant cannot be stated on this code: "+err.Error(), blockPos(lc.header))
			continue
		}
		e.oblige(st, fr, "inv-maintain:"+c.Name, c.Props, tRaw(t, "bool"), c.Text, blockPos(lc.header))
	}
}

func (e *Exec) assumeInv(st *State, fr *Frame, lc *loopCtx) {
	ctx := e.loopCtxFor(st, fr, lc)
	for _, c := range lc.spec.Invs {
		if lc.dropped[c.Name] {
			continue
		}
		t, err := ctx.trySubst(c.Text)
		if err != nil {
			continue
		}
		e.assume(st, "inv "+c.Name, tRaw(t, "bool"))
	}
	for _, h := range lc.spec.Body {
		e.hint(st, ctx, h)
	}
}

func (e *Exec) hint(st *State, ctx *Ctx, h string) {
	if e.dryDepth > 0 {
		return
	}
	t, err := ctx.trySubst(h)
	if err != nil {
		if os.Getenv("GOVC_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, e.short, "hint dropped:", err)
		}
		return
	}
	st.stmts = append(st.stmts, &Stmt{kind: 'h', text: t})
}
