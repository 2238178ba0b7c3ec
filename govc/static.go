package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func typeAndPtr(t types.Type) []types.Type {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return nil
	}
	return []types.Type{t, types.NewPointer(t)}
}

// initContracts: what the globals hold is an obligation on the package initialisers
func initContracts(cs *Contracts) {
	by := map[string]*Contract{}
	var names []string
	for n := range cs.Globals {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		cl := cs.Globals[n]
		p := n[:strings.Index(n, "_")]
		c := by[p]
		if c == nil {
			c = &Contract{Func: p + ".init", Loops: map[string]*LoopSpec{}, Nullable: map[string]bool{}, NeedLock: map[string]string{}, Writes: map[string]bool{}, Single: true, Init: true}
			by[p] = c
			cs.M[c.Func] = c
			cs.Order = append(cs.Order, c.Func)
		}
		c.Ensures = append(c.Ensures, &Clause{Name: n, Props: cl.Props, Text: strings.ReplaceAll(cl.Text, "$v", "$"+n), Line: cl.Line})
	}
}

// staticChecks: globals with a known value are written by the initialiser only, and neither their
// address nor their elements are written
func staticChecks(prog *ssa.Program, fns map[string]*ssa.Function, cs *Contracts) map[string]ObOut {
	out := map[string]ObOut{}
	for n, cl := range cs.Globals {
		out["const:"+n] = ObOut{Func: n, Name: "global-is-constant", Props: cl.Props, Text: n + " is written by the package initialisation only", Status: "proved"}
	}
	var visit func(f *ssa.Function)
	bad := func(g *ssa.Global, pos string) {
		n := pkgShort(g.Pkg.Pkg.Path()) + "_" + g.Name()
		k := "const:" + n
		if o, ok := out[k]; ok {
			o.Status = "failed"
			o.Pos = pos
			out[k] = o
		}
	}
	visit = func(f *ssa.Function) {
		init := f.Name() == "init" && f.Synthetic != ""
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg == nil || init {
						continue
					}
					pos := prog.Fset.Position(in.Pos()).String()
					switch x := in.(type) {
					case *ssa.UnOp:
						if !constUse(x) {
							bad(g, pos)
						}
					case *ssa.DebugRef:
					case *ssa.FieldAddr:
						// reading a field
						for _, r := range *x.Referrers() {
							if _, ok := r.(*ssa.UnOp); !ok {
								if _, ok := r.(*ssa.DebugRef); !ok {
									bad(g, pos)
								}
							}
						}
					case *ssa.Call:
						// handed to functions that only read it
						if !passedReadOnly(&x.Call, *op, map[ssa.Value]bool{}) {
							bad(g, pos)
						}
					default:
						bad(g, pos)
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	for _, f := range fns {
		visit(f)
	}
	return out
}

// constUse: a loaded slice, map or pointer is not written through
func constUse(x *ssa.UnOp) bool {
	switch x.Type().Underlying().(type) {
	case *types.Slice, *types.Map:
	default:
		return true
	}
	for _, r := range *x.Referrers() {
		switch y := r.(type) {
		case *ssa.IndexAddr:
			for _, q := range *y.Referrers() {
				if s, ok := q.(*ssa.Store); ok && s.Addr == y {
					return false
				}
			}
		case *ssa.MapUpdate:
			return false
		case *ssa.Store:
			return false
		}
	}
	return true
}

// passedReadOnly: the functions called with pointer v, as far as their source says, only read through it
func passedReadOnly(c *ssa.CallCommon, v ssa.Value, seen map[ssa.Value]bool) bool {
	f := c.StaticCallee()
	if f == nil || !inRepo(f) || len(f.Blocks) == 0 || c.Value == v {
		return false
	}
	for i, a := range c.Args {
		if a == v && !readOnly(f.Params[i], seen) {
			return false
		}
	}
	return true
}

// readOnly: nothing is written through pointer v, and it goes nowhere unseen
func readOnly(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef, *ssa.BinOp, *ssa.If:
		case *ssa.UnOp:
		case *ssa.FieldAddr:
			for _, q := range *x.Referrers() {
				switch q.(type) {
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return false
				}
			}
		case *ssa.Phi:
			if !readOnly(x, seen) {
				return false
			}
		case *ssa.Call:
			if !passedReadOnly(&x.Call, v, seen) {
				return false
			}
		case *ssa.Defer:
			if !passedReadOnly(&x.Call, v, seen) {
				return false
			}
		case *ssa.Store:
			a, ok := x.Addr.(*ssa.Alloc)
			if !ok || x.Addr == v || !cellReadOnly(a, seen) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// cellReadOnly: of a variable that holds the pointer
func cellReadOnly(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if x.Addr != v {
				return false
			}
		case *ssa.UnOp:
			if !readOnly(x, seen) {
				return false
			}
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b == v && !cellReadOnly(x.Fn.(*ssa.Function).FreeVars[i], seen) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}
