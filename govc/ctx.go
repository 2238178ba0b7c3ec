package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ctx resolves the $-names of a clause against a state.
type Ctx struct {
	e     *Exec
	st    *State
	names map[string]Val
	types map[string]types.Type
	env   *Frame
	loop  *loopCtx
	sub   map[string]*Ctx
	acq   map[string]*Term
}

var dollarRe = regexp.MustCompile(`\$([A-Za-z_][A-Za-z0-9_]*)(?:\.([A-Za-z_][A-Za-z0-9_]*))?`)
var strLitRe = regexp.MustCompile(`"(?:[^"\\]|\\.)*"`)

func (c *Ctx) trySubst(text string) (out string, err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				err = fmt.Errorf("%s", u.msg)
				return
			}
			panic(r)
		}
	}()
	text = strLitRe.ReplaceAllStringFunc(text, func(s string) string {
		v, e := strconv.Unquote(s)
		if e != nil {
			panic(unsupported("bad literal " + s))
		}
		return tLit(v).S
	})
	return dollarRe.ReplaceAllStringFunc(text, func(m string) string {
		g := dollarRe.FindStringSubmatch(m)
		n, rest := g[1], g[2]
		if n == "acq" && rest != "" {
			return c.acquired(rest).S
		}
		if s := c.sub[n]; s != nil && rest != "" {
			return s.lookup(rest).S
		}
		tm := c.lookup(n)
		t := tm.S
		if rest != "" {
			if si := structs[tm.Sort]; si != nil {
				for _, f := range si.Fields {
					if f == rest {
						return tField(tm, rest).S
					}
				}
			}
			if strings.Contains(t, "{") {
				t = "(" + t + ")"
			}
			t += "." + rest
		}
		return t
	}), nil
}

func (c *Ctx) acquired(n string) *Term {
	if t := c.acq[n]; t != nil {
		return t
	}
	if t := c.st.acq[n]; t != nil {
		return t
	}
	if p, ok := c.names[n].(Ptr); ok {
		l := c.st.resolve(p.L)
		if t := c.st.acq[fmt.Sprint("obj", l.obj)]; t != nil {
			return readPath(t, l.path)
		}
	}
	if c.sub["old"] != nil {
		return c.sub["old"].lookup(n)
	}
	panic(unsupported("no acquired value of " + n))
}

func (c *Ctx) lookup(n string) *Term {
	if v, ok := c.names[n]; ok {
		return c.e.valTerm(c.st, v, c.types[n])
	}
	if t, ok := c.st.ghost[n]; ok {
		return t
	}
	if n == "rangeindex" && c.env != nil && c.loopPhi() != nil && c.loopPhi().Comment != n {
		// an index loop has none of its own, a loop around it may
		if t := c.counter(); t != nil {
			return c.indexAsRange(t.T)
		}
	}
	if t := c.local(n); t != nil {
		return t
	}
	if t := c.e.globalByName(c.st, n); t != nil {
		return t
	}
	if c.loop != nil && c.loop.spec != nil {
		if s, ok := c.loop.spec.Roles[n]; ok {
			if t := c.role(s); t != nil {
				return t
			}
		}
	}
	if c.env != nil {
		for _, m := range c.e.newNames(c.env.fn, n) {
			if t := c.local(m); t != nil {
				return t
			}
		}
		// the index of a range loop, from the counter of a loop over the same indices, and back
		if phi := c.counter(); phi != nil {
			t := phi.T
			switch {
			case n == "rangeindex" && c.loopPhi().Comment != "rangeindex":
				return c.indexAsRange(t)
			case c.e.oldType(c.env.fn, n) == "int" && c.loopPhi().Comment == "rangeindex":
				return tArith("+", t, tInt(1))
			}
		}
	}
	panic(unsupported("unknown name $" + n))
}

// indexAsRange is what the index of a range loop would be
func (c *Ctx) indexAsRange(t *Term) *Term {
	if c.loop.win != nil {
		t = tArith("-", t, c.loop.win.lo)
	}
	return tArith("-", t, tInt(1))
}

// local is the value of a Go variable of the function, or of the one it is inlined in
func (c *Ctx) local(n string) *Term {
	for env := c.env; env != nil; env = env.parent {
		v, ok := env.env[n]
		if !ok {
			continue
		}
		if env.addr[n] {
			if p, ok := v.(Ptr); ok {
				return c.e.readDeep(c.st, p)
			}
		}
		var ty types.Type
		if _, isNil := v.(NilV); isNil {
			ty = varType(env.fn, n)
		}
		return c.e.valTerm(c.st, v, ty)
	}
	return nil
}

// role finds the unique local modified by the loop whose sort is s
func (c *Ctx) role(s string) *Term {
	var found *Term
	cnt := 0
	seen := map[string]bool{}
	for _, v := range c.env.env {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(unsupportedErr); !ok {
						panic(r)
					}
				}
			}()
			t := c.e.valTerm(c.st, v, nil)
			if t != nil && t.Sort == s && !seen[t.S] {
				seen[t.S] = true
				found = t
				cnt++
			}
		}()
	}
	if cnt == 1 {
		return found
	}
	return nil
}

// readDeep reads a variable through its address
func (e *Exec) readDeep(st *State, p Ptr) *Term {
	t := st.read(p.L)
	return t
}

func (e *Exec) valTerm(st *State, v Val, t types.Type) *Term {
	switch x := v.(type) {
	case TV:
		return x.T
	case Sl:
		return st.read(x.L)
	case Mp:
		return e.readMap(st, x.L)
	case Ptr:
		if x.Nil == nil {
			return st.read(x.L)
		}
		if n := len(x.L.path); n > 0 && x.L.path[n-1].k == 'o' {
			return st.read(Loc{x.L.obj, x.L.path[:n-1]})
		}
		r := st.read(x.L)
		return tIte(x.Nil, tNone(r.Sort), tSome(r))
	case IfaceV:
		if p, ok := x.v.(Ptr); ok {
			return e.valTerm(st, p, nil)
		}
		return e.toAny(st, x.v, x.t)
	case NilV:
		if t != nil {
			return zero(sortOf(t))
		}
		return tNil
	case Clo:
		if t != nil {
			return e.specFn(st, x, sortOf(t))
		}
	}
	panic(unsupported(fmt.Sprintf("no term for %T", v)))
}

func (e *Exec) globalByName(st *State, n string) *Term {
	if t := e.globalIn(st, n, true); t != nil {
		return t
	}
	return e.globalIn(st, n, false)
}

func (e *Exec) globalIn(st *State, n string, repo bool) *Term {
	for _, p := range e.prog.AllPackages() {
		if p.Pkg == nil || strings.HasPrefix(p.Pkg.Path(), repoPath) != repo {
			continue
		}
		pre := pkgShort(p.Pkg.Path()) + "_"
		if !strings.HasPrefix(n, pre) {
			continue
		}
		if g := p.Var(n[len(pre):]); g != nil {
			o := e.global(st, g)
			t := st.heap[o]
			if v := t.view(); v.Op == "some" {
				return v.A[0]
			}
			return t
		}
		if k := p.Const(n[len(pre):]); k != nil && k.Value != nil {
			if tv, ok := e.constant(k.Value).(TV); ok {
				return tv.T
			}
		}
	}
	return nil
}

// frameCtx: names of the contract's parameters over the given state
func (e *Exec) frameCtx(st *State, fr *Frame) *Ctx {
	c := &Ctx{e: e, st: st, names: map[string]Val{}, types: map[string]types.Type{}, sub: map[string]*Ctx{}, env: fr}
	if e.topFr != nil {
		for n, v := range e.topFr.params {
			c.names[n] = v
		}
		for n, t := range e.topTypes {
			c.types[n] = t
		}
	}
	if e.entry != nil && st != e.entry {
		c.sub["old"] = &Ctx{e: e, st: e.entry, names: c.names, types: c.types, sub: map[string]*Ctx{}}
	}
	return c
}

func (e *Exec) loopCtxFor(st *State, fr *Frame, lc *loopCtx) *Ctx {
	c := e.frameCtx(st, fr)
	c.loop = lc
	// locals shadow nothing: parameters that are reassigned are found by their Go name
	pf := &Frame{fn: fr.fn, env: lc.preEnv, addr: fr.addr, parent: fr.parent}
	c.sub["pre"] = &Ctx{e: e, st: lc.pre, names: c.names, types: c.types, env: pf, sub: map[string]*Ctx{}}
	// a parameter that was reassigned
	c.sub["cur"] = &Ctx{e: e, st: st, names: map[string]Val{}, types: c.types, env: fr, sub: map[string]*Ctx{}}
	if lc.head != nil {
		c.sub["head"] = &Ctx{e: e, st: lc.head, names: c.names, types: c.types, env: &Frame{fn: fr.fn, env: lc.headEnv, addr: fr.addr, parent: fr.parent}, sub: map[string]*Ctx{}}
	}
	r := e.ranged(st, fr, lc.header)
	if lc.win != nil && (r == nil || !isZero(lc.win.lo)) {
		r = e.windowed(st, fr, lc)
	}
	if r != nil {
		c.names = map[string]Val{"ranged": r}
		for n, v := range e.topFr.params {
			c.names[n] = v
		}
	}
	return c
}

// window: the part of a slice that an index loop visits
type window struct {
	slice  ssa.Value
	lo, hi *Term
	whole  bool // up to its end
}

func isZero(t *Term) bool { return t.Op == "int" && t.I == 0 }

// window finds, for `for k := lo; k < hi; k++`, the one slice that the loop indexes by k
func (e *Exec) window(st *State, fr *Frame, lc *loopCtx) *window {
	phi := (&Ctx{e: e, loop: lc}).loopPhi()
	if phi == nil || phi.Comment == "rangeindex" {
		return nil
	}
	lo, ok := fr.regs[phi].(TV)
	if !ok {
		return nil
	}
	w := &window{lo: lo.T}
	for _, in := range lc.header.Instrs {
		if bo, ok := in.(*ssa.BinOp); ok && bo.X == phi && (bo.Op == token.LSS || bo.Op == token.NEQ) {
			w.hi = e.headBound(st, fr, lc.header, bo)
		}
	}
	for b := range loopBlocks(lc.header) {
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.IndexAddr); ok && x.Index == phi {
				if w.slice != nil && w.slice != x.X {
					return nil
				}
				w.slice = x.X
			}
		}
	}
	if w.hi == nil || w.slice == nil || sliceTerm(e, st, fr, w.slice) == nil {
		return nil
	}
	return w
}

// sliceTerm is the value of a slice that does not change its place in the loop
func sliceTerm(e *Exec, st *State, fr *Frame, x ssa.Value) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupportedErr); !ok {
				panic(r)
			}
			t = nil
		}
	}()
	if v, ok := fr.regs[x]; ok {
		return e.valTerm(st, v, x.Type())
	}
	if ld, ok := x.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if fa, ok := ld.X.(*ssa.FieldAddr); ok {
			if _, ok := fr.regs[fa.X]; ok {
				s2, f2 := st.clone(), fr.clone()
				e.dryDepth++
				defer func() { e.dryDepth-- }()
				e.simple(s2, f2, fa)
				e.simple(s2, f2, ld)
				return e.valTerm(s2, f2.regs[ld], x.Type())
			}
		}
	}
	if p, ok := x.(*ssa.Parameter); ok {
		return e.valTerm(st, e.val(st, fr, p), x.Type())
	}
	return nil
}

func (e *Exec) windowed(st *State, fr *Frame, lc *loopCtx) Val {
	w := lc.win
	t := sliceTerm(e, st, fr, w.slice)
	if t == nil {
		return nil
	}
	if isZero(w.lo) && w.hi.S == tLen(t).S {
		return TV{t}
	}
	hi := tIte(tCmp("<", w.hi, w.lo), w.lo, w.hi)
	return TV{tRaw(fmt.Sprintf("%s.subrange(%s, %s)", t.S, w.lo.S, hi.S), t.Sort)}
}

// ranged: the slice a range loop runs over
func (e *Exec) ranged(st *State, fr *Frame, h *ssa.BasicBlock) Val {
	for _, in := range h.Instrs {
		bo, ok := in.(*ssa.BinOp)
		if !ok || bo.Op != token.LSS {
			continue
		}
		c, ok := bo.Y.(*ssa.Call)
		if !ok || len(c.Call.Args) != 1 {
			continue
		}
		if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
			continue
		}
		if v, ok := fr.regs[c.Call.Args[0]]; ok {
			return v
		}
	}
	return nil
}

// varType is the type of a local variable of the function, when all variables of the name share it
func varType(fn *ssa.Function, n string) types.Type {
	if fn == nil {
		return nil
	}
	var t types.Type
	add := func(v *types.Var) bool {
		if v == nil || v.Name() != n {
			return true
		}
		if t != nil && !types.Identical(t, v.Type()) {
			return false
		}
		t = v.Type()
		return true
	}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		add(fn.Signature.Results().At(i))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.DebugRef); ok {
				if v, ok := d.Object().(*types.Var); ok && !add(v) {
					return nil
				}
			}
		}
	}
	return t
}

// loopPhi is the counter of the loop: what starts somewhere and is one more each time
func (c *Ctx) loopPhi() *ssa.Phi {
	if c.loop == nil {
		return nil
	}
	h := c.loop.header
	var found *ssa.Phi
	for _, in := range h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if phi.Comment == "rangeindex" {
			return phi
		}
		if sortOf(phi.Type()) != "int" || found != nil {
			continue
		}
		step := false
		for i, p := range h.Preds {
			if h.Dominates(p) {
				bo, ok := phi.Edges[i].(*ssa.BinOp)
				if !ok || bo.X != phi || bo.Op != token.ADD {
					step = false
					break
				}
				k, ok := bo.Y.(*ssa.Const)
				step = ok && k.Value != nil && k.Int64() == 1
			}
		}
		cmp := false
		for _, in := range h.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok && (bo.X == phi || bo.Y == phi) {
				cmp = true
			}
		}
		if step && cmp {
			found = phi
		}
	}
	return found
}

func (c *Ctx) counter() *TV {
	phi := c.loopPhi()
	if phi == nil || c.env == nil || c.env.regs == nil {
		return nil
	}
	if v, ok := c.env.regs[phi].(TV); ok {
		return &v
	}
	return nil
}
