package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func shortName(fn *ssa.Function) string {
	n := codeName(fn)
	if m, ok := renamed[n]; ok {
		return m
	}
	return n
}

// codeName is the name of a function in the code
func codeName(fn *ssa.Function) string {
	if fn == nil {
		return ""
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	s := fn.Name()
	var pkg string
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = fn.Object().Pkg().Path()
	}
	p := pkgShort(pkg)
	if !strings.HasPrefix(pkg, repoPath) {
		p = pkg
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		n := typeName(t)
		return p + ".(" + n[strings.LastIndex(n, ".")+1:] + ")." + s
	}
	return p + "." + s
}

func (e *Exec) contractFor(fn *ssa.Function) *Contract {
	if fn == nil {
		return nil
	}
	return e.cs.M[shortName(fn)]
}

func inRepo(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil && genericCopy(fn) {
		fn = o
	}
	if fn.Pkg == nil {
		return false
	}
	return strings.HasPrefix(fn.Pkg.Pkg.Path(), repoPath)
}

// genericCopy: the instance of a generic function for the type parameters of its caller
func genericCopy(fn *ssa.Function) bool {
	for _, t := range fn.TypeArgs() {
		if _, ok := t.(*types.TypeParam); !ok {
			return false
		}
	}
	return len(fn.TypeArgs()) > 0
}

func (e *Exec) calleeVal(st *State, fr *Frame, c *ssa.CallCommon) Val {
	return e.val(st, fr, c.Value)
}

func (e *Exec) call(st *State, fr *Frame, c *ssa.CallCommon, in ssa.Instruction, k cont) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, e.val(st, fr, a))
	}
	e.callWith(st, fr, c, e.calleeVal(st, fr, c), args, in, k)
}

func (e *Exec) callWith(st *State, fr *Frame, c *ssa.CallCommon, fnv Val, args []Val, in ssa.Instruction, k cont) {
	pos := in.Pos()
	if c.IsInvoke() {
		e.invoke(st, fr, c, fnv, args, pos, k)
		return
	}
	switch f := fnv.(type) {
	case BuiltinV:
		e.builtin(st, fr, c, f.name, args, pos, k)
		return
	case Clo:
		e.callFn(st, fr, f, args, c, pos, k)
		return
	case TV:
		if strings.HasPrefix(f.T.Sort, "spec_fn") {
			ts := []string{}
			sig := c.Signature()
			if transformed(sig) != nil {
				p, ok := args[0].(Ptr)
				if !ok {
					panic(unsupported(fmt.Sprintf("option applied to %T", args[0])))
				}
				if p.Nil != nil {
					e.safe(st, fr, "nil-arg", tNot(p.Nil), pos)
				}
				c := st.read(p.L)
				e.checkWrite(st, fr, p.L, pos)
				e.write(st, p.L, tRaw("("+f.T.S+")("+c.S+")", c.Sort))
				k(st, nil)
				return
			}
			for i, a := range args {
				ts = append(ts, e.toTerm(st, a, sig.Params().At(i).Type()).S)
			}
			if sig.Results().Len() > 1 {
				var rs []Val
				for i := 0; i < sig.Results().Len(); i++ {
					rt := sig.Results().At(i).Type()
					rs = append(rs, e.fromTerm(st, tRaw(fmt.Sprintf("(%s)(%s).%d", f.T.S, strings.Join(ts, ", "), i), sortOf(rt)), rt, "fv"))
				}
				k(st, rs)
				return
			}
			if sig.Results().Len() != 1 {
				panic(unsupported("function value without a result"))
			}
			rt := sig.Results().At(0).Type()
			k(st, []Val{e.fromTerm(st, tRaw("("+f.T.S+")("+strings.Join(ts, ", ")+")", sortOf(rt)), rt, "fv")})
			return
		}
	}
	panic(unsupported(fmt.Sprintf("call of %T", fnv)))
}

func (e *Exec) callFn(st *State, fr *Frame, f Clo, args []Val, c *ssa.CallCommon, pos token.Pos, k cont) {
	fn := f.fn
	sn := shortName(fn)
	if e.initMode && fn.Name() == "init" && fn.Synthetic != "" {
		k(st, nil)
		return
	}
	ctr := e.contractFor(fn)
	if ctr != nil && !ctr.Inline && (fn.Parent() == nil || ctr.SpecFn == "") {
		e.apply(st, fr, ctr, fn, args, f.free, pos, k)
		return
	}
	if m, ok := models[sn]; ok {
		e.externs[sn] = true
		m(&mcall{e, st, fr, fn, args, pos, k, c})
		return
	}
	if inRepo(fn) || fn.Synthetic != "" && len(fn.Blocks) > 0 && fn.Pkg == nil && strings.HasPrefix(sn, "snaps") {
		e.inlined[sn] = true
		if fn.Parent() == nil {
			for p := fr; p != nil; p = p.parent {
				if p.fn == fn {
					panic(unsupported("recursive function without a contract: " + sn))
				}
			}
		}
		if o := fn.Origin(); o != nil && len(fn.Blocks) == 0 {
			fn = o
		}
		e.runFunc(st, fn, args, f.free, fr, k)
		return
	}
	if purePkg(sn) {
		e.externs[sn] = true
		k(st, e.pureCall(st, sn, fn.Signature, args))
		return
	}
	if e.initMode {
		k(st, e.opaqueResults(st, fn.Signature))
		return
	}
	panic(unsupported("call of external function " + sn))
}

func (e *Exec) opaqueResults(st *State, sig *types.Signature) []Val {
	var rs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		rs = append(rs, e.fromTerm(st, e.fresh("opaque", sortOf(t)), t, "opaque"))
	}
	return rs
}

var purePkgs = map[string]bool{"strings": true, "bytes": true, "strconv": true, "path": true, "path/filepath": true, "unicode": true, "unicode/utf8": true, "math": true, "regexp": true, "slices": true, "maps": true, "cmp": true, "errors": true,
	"github.com/maruel/natural": true, "encoding/json": true, "github.com/tidwall/gjson": true, "github.com/tidwall/pretty": true, "github.com/goccy/go-yaml": true, "github.com/goccy/go-yaml/parser": true, "github.com/goccy/go-yaml/ast": true, "github.com/kr/pretty": true}

func purePkg(sn string) bool {
	i := strings.LastIndex(sn, "/")
	j := strings.Index(sn[i+1:], ".")
	return purePkgs[sn[:i+1+j]]
}

func pureName(sn string) string {
	i := strings.LastIndex(sn, "/")
	return sanitize(sn[i+1:])
}

// pureCall applies an uninterpreted (or library defined) spec function
func (e *Exec) pureCall(st *State, sn string, sig *types.Signature, args []Val) []Val {
	var ts []*Term
	i := 0
	if sig.Recv() != nil {
		ts = append(ts, e.toTerm(st, args[0], sig.Recv().Type()))
		i = 1
	}
	for j := 0; i < len(args); i, j = i+1, j+1 {
		ts = append(ts, e.toTerm(st, args[i], sig.Params().At(j).Type()))
	}
	name := pureName(sn)
	if b, ok := strings.CutPrefix(name, "bytes_"); ok && !libDefined(name) && libDefined("strings_"+b) {
		name = "strings_" + b // bytes and strings are both sequences here
	}
	var rs []Val
	for j := 0; j < sig.Results().Len(); j++ {
		n := name
		if sig.Results().Len() > 1 {
			n = fmt.Sprintf("%s_r%d", name, j)
		}
		rt := sig.Results().At(j).Type()
		s := sortOf(rt)
		t := e.specCall(n, s, ts...)
		v := e.fromTerm(st, t, rt, name)
		if sl, ok := v.(Sl); ok {
			e.metas[sl.L.obj].sliceOf = "" // these library functions return new slices
		}
		rs = append(rs, v)
	}
	return rs
}

// specCall: a function of the spec library when defined there, else uninterpreted
func (e *Exec) specCall(n, s string, ts ...*Term) *Term {
	if t := constFold(n, ts); t != nil {
		return t
	}
	if specDefined[n] {
		return tApp(n, s, ts...)
	}
	e.uninterpUsed[n] = true
	return e.uninterpApp(n, s, ts...)
}

func constFold(n string, ts []*Term) *Term {
	lit := func(i int) (string, bool) {
		if i >= len(ts) {
			return "", false
		}
		v := ts[i].view()
		return v.Lit, v.Op == "lit"
	}
	a, ok1 := lit(0)
	b, ok2 := lit(1)
	if ok2 && !ok1 && len(b) == 1 && (n == "strings_HasPrefix" || n == "strings_HasSuffix") {
		// of a single byte
		i := tInt(0)
		if n == "strings_HasSuffix" {
			i = tArith("-", tLen(ts[0]), tInt(1))
		}
		return tAnd(tCmp(">", tLen(ts[0]), tInt(0)), tEq(tIdx(ts[0], i), tInt(int64(b[0]))))
	}
	switch n {
	case "strings_HasPrefix":
		if ok1 && ok2 {
			return tBool(strings.HasPrefix(a, b))
		}
	case "strings_HasSuffix":
		if ok1 && ok2 {
			return tBool(strings.HasSuffix(a, b))
		}
	}
	return nil
}

func libDefined(n string) bool {
	return specDefined[n] || specDefined[n+"_r0"]
}

var specDefined = map[string]bool{}

// apply uses a callee's contract
func (e *Exec) apply(st *State, fr *Frame, ctr *Contract, fn *ssa.Function, args, free []Val, pos token.Pos, k cont) {
	e.used[ctr.Func] = true
	names := map[string]Val{}
	tys := map[string]types.Type{}
	for i, p := range fn.Params {
		n := p.Name()
		if i < len(ctr.Params) {
			n = ctr.Params[i]
		}
		names[n] = args[i]
		tys[n] = p.Type()
		if pp, ok := args[i].(Ptr); ok && ctr.Nullable[n] && pp.Nil == nil {
			pp.Nil = tFalse
			names[n] = pp
		}
		if _, ok := p.Type().Underlying().(*types.Pointer); ok && !ctr.Nullable[n] && sortOf(p.Type()) != "Opq" {
			switch pp := args[i].(type) {
			case Ptr:
				if pp.Nil != nil {
					e.safe(st, fr, "nil-arg", tNot(pp.Nil), pos)
					pp.Nil = nil
					names[n] = pp
				}
			case NilV:
				e.safe(st, fr, "nil-arg", tFalse, pos)
			}
		}
		if m, ok := args[i].(Sl); ok && ctr.Writes[n] {
			e.checkWrite(st, fr, m.L, pos)
		}
	}
	for i, c := range fn.FreeVars {
		p, ok := free[i].(Ptr)
		if !ok {
			panic(unsupported("captured value"))
		}
		if _, isF := c.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Signature); isF {
			continue
		}
		et := c.Type().Underlying().(*types.Pointer).Elem()
		if _, isS := et.Underlying().(*types.Struct); isS && ctr.modifiesVar(c.Name()) {
			names[c.Name()], tys[c.Name()] = Ptr{L: p.L}, c.Type()
			continue
		}
		names[c.Name()] = e.loadVal(st, p.L, et)
		tys[c.Name()] = et
		if q, ok := names[c.Name()].(Ptr); ok && q.Nil != nil {
			e.safe(st, fr, "nil-arg", tNot(q.Nil), pos)
			q.Nil = nil
			names[c.Name()] = q
		}
	}
	outer := st.ghost["stack"]
	if ctr.mentions("$stack") {
		e.pushFrames(st, fr)
	}
	pre := &Ctx{e: e, st: st, names: names, types: tys, sub: map[string]*Ctx{}}
	for _, c := range ctr.Requires {
		props := c.Props
		if len(props) == 0 {
			props = e.ctr.Props
		}
		t, err := pre.trySubst(c.Text)
		if err != nil {
			e.oblige(st, fr, "call:"+shortF(ctr.Func)+":"+c.Name, e.ctr.Props, tFalse, "precondition cannot be stated: "+err.Error(), pos)
			continue
		}
		e.oblige(st, fr, "call:"+shortF(ctr.Func)+":"+c.Name, e.ctr.Props, tRaw(t, "bool"), c.Text, pos)
	}
	for _, l := range ctr.Acquires {
		for lk, v := range st.locks {
			if v != 0 && e.lockNames[lk] == l {
				e.oblige(st, fr, "lock-order", lockProps(e.ctr), tFalse, "lock "+l+" is not held when calling "+ctr.Func, pos)
			}
		}
	}
	old := st.clone()
	acq := map[string]*Term{}
	// acquired locks: other goroutines may have run
	if len(ctr.Acquires) > 0 {
		for _, l := range ctr.Acquires {
			for _, ld := range e.cs.Locks {
				if ld.Lock != l {
					continue
				}
				for n, v := range names {
					pp, ok := v.(Ptr)
					if !ok {
						continue
					}
					c := st.read(pp.L)
					if c.Sort != l {
						continue
					}
					if !e.ctr.Single {
						for _, g := range ld.Guards {
							if _, isG := st.ghost[g]; !isG {
								c = tSetField(c, g+"_", e.fresh("acq_"+g, tField(c, g+"_").Sort))
							}
						}
						st.writeRaw(pp.L, c)
					}
					for _, in := range ld.Invs {
						if t := e.lockInv(st, pp.L, in); t != nil {
							e.assume(st, "lock invariant "+in.Name, t)
						}
					}
					acq[n] = c
				}
				for _, g := range ld.Guards {
					if cur, ok := st.ghost[g]; ok {
						if e.ctr.Single {
							acq[g] = cur
						} else {
							acq[g] = e.fresh("acq_"+g, cur.Sort)
							st.ghost[g] = acq[g]
						}
					}
				}
			}
		}
		if !e.ctr.Single {
			for _, r := range e.ctr.Rely {
				ctx := e.frameCtx(st, fr)
				ctx.sub["bef"] = e.frameCtx(old, fr)
				t, err := ctx.trySubst(r.Text)
				if err != nil {
					if debug {
						fmt.Println("rely dropped", err)
					}
					continue
				}
				e.assume(st, "rely "+r.Name, tRaw(t, "bool"))
			}
		}
	}
	for _, m := range ctr.Modifies {
		e.havocItem(st, fr, names, m, ctr, pos)
	}
	var rs []Val
	sig := fn.Signature
	post := &Ctx{e: e, st: st, names: map[string]Val{}, types: tys, sub: map[string]*Ctx{}, acq: acq}
	for n, v := range names {
		post.names[n] = v
	}
	post.sub["old"] = &Ctx{e: e, st: old, names: names, types: tys, sub: map[string]*Ctx{}}
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		n := fmt.Sprintf("r%d", i)
		if i < len(ctr.Results) {
			n = ctr.Results[i]
		}
		var t *Term
		if ctr.Returns != "" && i == 0 {
			s, err := post.trySubst(ctr.Returns)
			if err != nil {
				panic(unsupported("returns of " + ctr.Func + ": " + err.Error()))
			}
			t = e.bind(st, n, tRaw(s, sortOf(rt)))
		} else {
			t = e.fresh(n, sortOf(rt))
		}
		var v Val
		if e.ptrResult(rt, n, ctr) && t.Op == "var" {
			o := e.newObj(st, e.fresh(n, optSort(sortOf(rt))), n)
			v = Ptr{L: Loc{obj: o}, GT: rt}
		} else {
			v = e.fromTerm(st, t, rt, n)
		}
		if sl, ok := v.(Sl); ok {
			m := e.metas[sl.L.obj]
			m.origins = []Loc{}
			as, declared := ctr.Aliases[n]
			for _, a := range as {
				p := strings.SplitN(a, ".", 2)
				if pp, ok := names[p[0]].(Ptr); ok {
					m.origins = append(m.origins, pp.L.ext(PE{k: 'f', f: p[1]}))
				}
			}
			for _, a := range args {
				if declared {
					break
				}
				if p, ok := a.(Ptr); ok && p.Nil == nil {
					m.origins = append(m.origins, p.L)
				}
			}
		}
		rs = append(rs, v)
		post.names[n] = v
		post.types[n] = rt
	}
	for _, g := range ctr.Ghost {
		e.ghostAssign(st, post, g)
	}
	for _, c := range ctr.Ensures {
		t, err := post.trySubst(c.Text)
		if err != nil {
			if debug {
				fmt.Println("ensures dropped", ctr.Func, err)
			}
			continue
		}
		e.assume(st, shortF(ctr.Func)+" ensures "+c.Name, tRaw(t, "bool"))
	}
	st.ghost["stack"] = outer
	if n := "after_" + shortF(ctr.Func); e.ctr.mentions("$" + n + ".") {
		st.after[n] = &Ctx{e: e, st: st.clone(), names: post.names, types: post.types, sub: post.sub}
	}
	k(st, rs)
}

// depth: how many inlined frames lie between the function under contract and fr
func (e *Exec) depth(fr *Frame) int {
	d := 0
	for p := fr; p != nil && p.parent != nil; p = p.parent {
		d++
	}
	return d
}

// pushFrames: the call stack as a callee sees it, its own frame first
func (e *Exec) pushFrames(st *State, fr *Frame) {
	n := int64(e.depth(fr) + 1)
	out := st.ghost["stack"]
	in := e.fresh("stack", out.Sort)
	e.assume(st, "call stack", tRaw(fmt.Sprintf("%s.len() == %s.len() + %d && %s.skip(%d) == %s && (forall|i: int| 0 <= i < %d ==> lib_frame(#[trigger] %s[i])) && (forall|i: int| 0 <= i <= %s.len() ==> #[trigger] %s.skip(i) == %s.skip(i + %d))", in.S, out.S, n, in.S, n, out.S, n, in.S, out.S, out.S, in.S, n), "bool"))
	st.ghost["stack"] = in
}

// ptrResult: a pointer result that is promised not to be nil (checked on return)
func (e *Exec) ptrResult(t types.Type, n string, ctr *Contract) bool {
	_, isP := t.Underlying().(*types.Pointer)
	return isP && sortOf(t) != "Opq" && strings.HasPrefix(sortOf(t), "Option<") && !ctr.Nullable[n]
}

func (e *Exec) ghostAssign(st *State, ctx *Ctx, g string) {
	p := strings.SplitN(g, "=", 2)
	n := strings.TrimSpace(p[0])
	t, err := ctx.trySubst(strings.TrimSpace(p[1]))
	if err != nil {
		panic(unsupported("ghost " + g + ": " + err.Error()))
	}
	st.ghost[n] = e.bind(st, n, tRaw(t, st.ghost[n].Sort))
}

func shortF(s string) string { return s[strings.LastIndex(s, ".")+1:] }

func (e *Exec) havocItem(st *State, fr *Frame, names map[string]Val, m string, ctr *Contract, pos token.Pos) {
	if g, ok := st.ghost[m]; ok {
		st.ghost[m] = e.fresh(m, g.Sort)
		return
	}
	parts := strings.SplitN(m, ".", 2)
	v, ok := names[parts[0]]
	if !ok {
		if t := e.globalByName(st, parts[0]); t != nil {
			o := e.globalObj(parts[0])
			if len(parts) == 1 {
				c := st.heap[o]
				if v := c.view(); v.Op == "some" {
					st.heap[o] = tSome(e.fresh(m, v.A[0].Sort))
				} else {
					st.heap[o] = e.fresh(m, c.Sort)
				}
			} else {
				c := st.heap[o]
				some := false
				if v := c.view(); v.Op == "some" {
					c, some = v.A[0], true
				}
				c = tSetField(c, parts[1], e.fresh(m, tField(c, parts[1]).Sort))
				if some {
					c = tSome(c)
				}
				st.heap[o] = c
			}
			return
		}
		panic(unsupported("modifies " + m + " in " + ctr.Func))
	}
	var l Loc
	switch x := v.(type) {
	case Ptr:
		l = x.L
	case Sl:
		e.checkWrite(st, fr, x.L, pos)
		l = x.L
	case Mp:
		l = x.L
	case IfaceV:
		p, ok := x.v.(Ptr)
		if !ok {
			panic(unsupported("modifies " + m))
		}
		l = p.L
	default:
		panic(unsupported(fmt.Sprintf("modifies %s: %T", m, v)))
	}
	if len(parts) == 2 {
		l = l.ext(PE{k: 'f', f: parts[1]})
	}
	cur := st.read(l)
	st.writeRaw(l, e.fresh(strings.ReplaceAll(m, ".", "_"), cur.Sort))
}

func (e *Exec) globalObj(n string) int {
	for k, o := range e.globals {
		i := strings.LastIndex(k, ".")
		if pkgShort(k[:i])+"_"+k[i+1:] == n {
			return o
		}
	}
	return 0
}

func (e *Exec) invoke(st *State, fr *Frame, c *ssa.CallCommon, recv Val, args []Val, pos token.Pos, k cont) {
	name := typeName(c.Value.Type())
	name = name[strings.LastIndex(name, "/")+1:] + "." + c.Method.Name()
	if iv, ok := recv.(IfaceV); ok {
		// known dynamic type: direct call when it is ours
		fn := e.prog.LookupMethod(iv.t, c.Method.Pkg(), c.Method.Name())
		if fn != nil && (inRepo(fn)) {
			e.callFn(st, fr, Clo{fn: fn}, append([]Val{iv.v}, args...), c, pos, k)
			return
		}
		if m, ok := models[shortName(fn)]; ok {
			m(&mcall{e, st, fr, fn, append([]Val{iv.v}, args...), pos, k, c})
			return
		}
	}
	if m, ok := models["invoke "+name]; ok {
		e.externs["invoke "+name] = true
		m(&mcall{e, st, fr, nil, append([]Val{recv}, args...), pos, k, c})
		return
	}
	if ctr := e.cs.M["invoke."+name]; ctr != nil {
		e.applyInvoke(st, fr, ctr, c, append([]Val{recv}, args...), pos, k)
		return
	}
	panic(unsupported("interface call " + name))
}

// applyInvoke: a contract on an interface method (assumed for every implementation)
func (e *Exec) applyInvoke(st *State, fr *Frame, ctr *Contract, c *ssa.CallCommon, args []Val, pos token.Pos, k cont) {
	e.used[ctr.Func] = true
	names := map[string]Val{}
	tys := map[string]types.Type{}
	sig := c.Signature()
	for i, a := range args {
		n := fmt.Sprintf("p%d", i)
		if i < len(ctr.Params) {
			n = ctr.Params[i]
		}
		names[n] = a
		if i == 0 {
			tys[n] = c.Value.Type()
		} else {
			tys[n] = sig.Params().At(i - 1).Type()
		}
	}
	old := st.clone()
	for _, m := range ctr.Modifies {
		e.havocItem(st, fr, names, m, ctr, pos)
	}
	post := &Ctx{e: e, st: st, names: map[string]Val{}, types: tys, sub: map[string]*Ctx{}}
	for n, v := range names {
		post.names[n] = v
	}
	post.sub["old"] = &Ctx{e: e, st: old, names: names, types: tys, sub: map[string]*Ctx{}}
	var rs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		n := fmt.Sprintf("r%d", i)
		if i < len(ctr.Results) {
			n = ctr.Results[i]
		}
		v := e.fromTerm(st, e.fresh(n, sortOf(rt)), rt, n)
		rs = append(rs, v)
		post.names[n] = v
		post.types[n] = rt
	}
	for _, cl := range ctr.Ensures {
		t, err := post.trySubst(cl.Text)
		if err != nil {
			panic(unsupported("ensures of " + ctr.Func + ": " + err.Error()))
		}
		e.assume(st, ctr.Func+" ensures "+cl.Name, tRaw(t, "bool"))
	}
	k(st, rs)
}

func (e *Exec) builtin(st *State, fr *Frame, c *ssa.CallCommon, name string, args []Val, pos token.Pos, k cont) {
	typ := func(i int) types.Type { return c.Args[i].Type() }
	switch name {
	case "len":
		switch x := args[0].(type) {
		case NilV:
			k(st, []Val{TV{tInt(0)}})
		case Mp:
			e.guard(st, fr, x.L, pos)
			m := e.readMap(st, x.L)
			if m.view().Op == "emptymap" {
				k(st, []Val{TV{tInt(0)}})
				return
			}
			t := tRaw(m.S+".len() as int", "int")
			e.assume(st, "map-len", tRaw(fmt.Sprintf("map_len_ok(%s)", m.S), "bool"))
			k(st, []Val{TV{t}})
		default:
			k(st, []Val{TV{tLen(e.toTerm(st, args[0], typ(0)))}})
		}
	case "cap":
		t := e.toTerm(st, args[0], typ(0))
		n := e.fresh("cap", "int")
		e.assume(st, "cap", tCmp("<=", tLen(t), n))
		k(st, []Val{TV{n}})
	case "append":
		st0 := typ(0)
		s := e.toTerm(st, args[0], st0)
		ro := false
		if sl, ok := args[0].(Sl); ok {
			if m := e.metas[st.resolve(sl.L).obj]; m != nil && m.caller {
				ro = true
			}
		}
		if ro {
			e.oblige(st, fr, "frame:caller-bytes", []string{"C15"}, tFalse, "no append onto the bytes passed in by the caller", pos)
		}
		var x *Term
		if _, ok := args[1].(NilV); ok {
			x = zero(sortOf(st0))
		} else {
			x = e.toTerm(st, args[1], typ(1))
		}
		r := e.bind(st, "app", seqAppend(s, x))
		o := e.newObj(st, r, "app")
		if sl, ok := args[0].(Sl); ok {
			m := e.metas[st.resolve(sl.L).obj]
			e.metas[o].sliceOf, e.metas[o].origins = m.sliceOf, m.origins
			if e.cut(st, sl) {
				panic(unsupported("append to a slice cut from another one"))
			}
		}
		k(st, []Val{Sl{L: Loc{obj: o}}})
	case "copy":
		d, ok := args[0].(Sl)
		if !ok {
			k(st, []Val{TV{tInt(0)}})
			return
		}
		e.checkWrite(st, fr, d.L, pos)
		dst := st.read(d.L)
		src := e.toTerm(st, args[1], typ(1))
		n := tRaw(fmt.Sprintf("if %s.len() <= %s.len() { %s.len() as int } else { %s.len() as int }", dst.S, src.S, dst.S, src.S), "int")
		n = e.bind(st, "ncopy", n)
		e.write(st, d.L, tRaw(fmt.Sprintf("%s.take(%s) + %s.skip(%s)", src.S, n.S, dst.S, n.S), dst.Sort))
		k(st, []Val{TV{n}})
	case "delete":
		m, ok := args[0].(Mp)
		if !ok {
			k(st, nil)
			return
		}
		e.guard(st, fr, m.L, pos)
		e.checkWrite(st, fr, m.L, pos)
		key := e.toTerm(st, args[1], typ(0).Underlying().(*types.Map).Key())
		e.write(st, m.L, tMapDel(e.readMap(st, m.L), key))
		k(st, nil)
	case "max", "min":
		r := args[0].(TV).T
		op := ">="
		if name == "min" {
			op = "<="
		}
		for _, a := range args[1:] {
			t := a.(TV).T
			r = tIte(tCmp(op, r, t), r, t)
		}
		k(st, []Val{TV{e.bind(st, name, r)}})
	case "clear":
		switch x := args[0].(type) {
		case Mp:
			e.guard(st, fr, x.L, pos)
			e.write(st, x.L, tMapEmpty(st.read(x.L).Sort))
			k(st, nil)
			return
		}
		panic(unsupported("clear"))
	case "ssa:wrapnilchk":
		k(st, []Val{args[0]})
	case "recover":
		k(st, []Val{NilV{}})
	case "print", "println":
		k(st, nil)
	default:
		panic(unsupported("builtin " + name))
	}
}

// cut: the slice was cut before the end of another one, an append would write there
func (e *Exec) cut(st *State, s Sl) bool {
	return e.metas[st.resolve(s.L).obj].cut
}

func seqAppend(s, x *Term) *Term {
	v := x.view()
	if v.Op == "push" || v.Op == "emptyseq" {
		var els []*Term
		for v.Op == "push" {
			els = append(els, v.A[1])
			v = v.A[0].view()
		}
		if v.Op == "emptyseq" {
			for i := len(els) - 1; i >= 0; i-- {
				s = tPush(s, els[i])
			}
			return s
		}
	}
	return tCat(s, x)
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
