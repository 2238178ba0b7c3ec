package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/packages"
)

// intRanges rewrites `for i := range n` over an int as the loop with a counter that the language
// defines it to be, so that both ways of writing it meet the same contracts. The head of the
// statement changes, on its own line; a loop whose body writes its counter, takes its address or
// captures it is left as it is. The result is an overlay: nothing on disk changes.
func intRanges(pkgs []*packages.Package) map[string][]byte {
	type edit struct {
		from, to int
		text     string
	}
	edits := map[string][]edit{}
	for _, p := range pkgs {
		for _, f := range p.Syntax {
			n := 0
			ast.Inspect(f, func(nd ast.Node) bool {
				r, ok := nd.(*ast.RangeStmt)
				if !ok {
					return true
				}
				t := p.TypesInfo.TypeOf(r.X)
				b, ok := t.(*types.Basic)
				if !ok || (b.Kind() != types.Int && b.Kind() != types.UntypedInt) || r.Value != nil || (r.Key != nil && r.Tok != token.DEFINE) {
					return true
				}
				n++
				key := fmt.Sprintf("rangeKey%d", n)
				if id, ok := r.Key.(*ast.Ident); ok && id.Name != "_" {
					obj := p.TypesInfo.Defs[id]
					if obj == nil || !onlyRead(p.TypesInfo, r.Body, obj) || obj.Type().Underlying() != types.Typ[types.Int] {
						return true
					}
					key = id.Name
				}
				fset := p.Fset
				at := func(x token.Pos) int { return fset.Position(x).Offset }
				name := fset.Position(r.Pos()).Filename
				src, err := os.ReadFile(name)
				if err != nil {
					return true
				}
				x := string(src[at(r.X.Pos()):at(r.X.End())])
				text := ""
				if fixedBound(p.TypesInfo, r.X, r.Body, f) {
					text = fmt.Sprintf("%s := 0; %s < %s; %s++ ", key, key, x, key)
				} else {
					end := fmt.Sprintf("rangeEnd%d", n)
					text = fmt.Sprintf("%s, %s := 0, int(%s); %s < %s; %s++ ", key, end, x, key, end, key)
				}
				edits[name] = append(edits[name], edit{at(r.For) + len("for "), at(r.Body.Lbrace), text})
				return true
			})
		}
	}
	if len(edits) == 0 {
		return nil
	}
	out := map[string][]byte{}
	for name, es := range edits {
		src, err := os.ReadFile(name)
		if err != nil {
			continue
		}
		sort.Slice(es, func(i, j int) bool { return es[i].from > es[j].from })
		for _, e := range es {
			src = append(src[:e.from:e.from], append([]byte(e.text), src[e.to:]...)...)
		}
		out[name] = src
	}
	return out
}

// onlyRead: the body only reads the variable, and no closure in it does
func onlyRead(info *types.Info, body ast.Node, obj types.Object) bool {
	ok := true
	is := func(e ast.Expr) bool {
		id, isID := ast.Unparen(e).(*ast.Ident)
		return isID && info.Uses[id] == obj
	}
	ast.Inspect(body, func(nd ast.Node) bool {
		switch x := nd.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				ok = ok && !is(l)
			}
		case *ast.IncDecStmt:
			ok = ok && !is(x.X)
		case *ast.RangeStmt:
			ok = ok && (x.Key == nil || !is(x.Key)) && (x.Value == nil || !is(x.Value))
		case *ast.UnaryExpr:
			ok = ok && (x.Op != token.AND || !is(x.X))
		case *ast.FuncLit:
			ast.Inspect(x, func(m ast.Node) bool {
				if e, isE := m.(ast.Expr); isE && is(e) {
					ok = false
				}
				return true
			})
			return true
		}
		return true
	})
	return ok
}

// fixedBound: evaluating the bound again gives the same: a constant, a variable the body only reads
// or the length of one
func fixedBound(info *types.Info, x ast.Expr, body, file ast.Node) bool {
	x = ast.Unparen(x)
	if info.Types[x].Value != nil {
		return true
	}
	if c, ok := x.(*ast.CallExpr); ok && len(c.Args) == 1 {
		if id, ok := c.Fun.(*ast.Ident); ok {
			if b, ok := info.Uses[id].(*types.Builtin); ok && b.Name() == "len" {
				x = ast.Unparen(c.Args[0])
			}
		}
	}
	id, ok := x.(*ast.Ident)
	if !ok {
		return false
	}
	v, ok := info.Uses[id].(*types.Var)
	if !ok || v.Parent() == nil || v.Pkg() == nil || v.Parent() == v.Pkg().Scope() {
		return false
	}
	switch v.Type().Underlying().(type) {
	case *types.Basic, *types.Slice:
	default:
		return false
	}
	return onlyRead(info, body, v) && !shared(info, file, v)
}

// shared: something else may write the variable: its address is taken or a closure uses it
func shared(info *types.Info, file ast.Node, obj types.Object) bool {
	found := false
	ast.Inspect(file, func(nd ast.Node) bool {
		var in ast.Node
		switch x := nd.(type) {
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				in = x
			}
		case *ast.FuncLit:
			if obj.Pos() < x.Pos() || obj.Pos() > x.End() {
				in = x
			}
		}
		if in != nil {
			ast.Inspect(in, func(m ast.Node) bool {
				if id, ok := m.(*ast.Ident); ok && info.Uses[id] == obj {
					found = true
				}
				return true
			})
		}
		return true
	})
	return found
}
