package main

import (
	"fmt"
	"go/types"
	"strings"
)

const repoPath = "github.com/gkampitakis/go-snaps"

var specialTypes = map[string]string{
	"strings.Builder": "T_Sink", "bytes.Buffer": "T_Sink", "bytes.Reader": "T_Sink", "strings.Reader": "T_Sink",
	"bufio.Scanner": "T_Scanner", "os.File": "T_File", "sync.Mutex": "unit", "sync.RWMutex": "unit",
	"io.Writer": "T_Sink", "io.Reader": "T_Sink",
	"io/fs.DirEntry": "T_DirEnt", "os.DirEntry": "T_DirEnt",
	"flag.Flag": "T_Flag", "flag.Value": "Str",
	"github.com/goccy/go-yaml/ast.File": "T_YFile",
	"go/ast.File":                       "T_GoFile", "go/ast.Decl": "T_GoDecl", "go/ast.FuncDecl": "T_GoDecl",
}

func init() {
	add := func(n string, fs ...string) {
		si := &StructInfo{Name: n}
		for i := 0; i < len(fs); i += 2 {
			si.Fields = append(si.Fields, fs[i])
			si.Sorts = append(si.Sorts, fs[i+1])
		}
		structs[n] = si
	}
	add("T_Sink", "out", "Str")
	add("T_Scanner", "rest", "Seq<Str>", "cur", "Str", "max", "int")
	add("T_File", "path", "Str", "pos", "int", "app", "bool")
	add("T_DirEnt", "name", "Str", "isdir", "bool")
	add("T_T", "name", "Str")
	add("T_Flag", "Value_", "Str")
	add("T_Frame", "file", "Str", "fun", "Str")
	add("T_Matcher", "id", "int")
	add("T_GoDecl", "isfunc", "bool", "Name_", "Opq")
	add("T_YFile", "Docs_", "Seq<Opq>")
	add("T_GoFile", "Decls_", "Seq<T_GoDecl>")
	builtinStructs = len(structs)
}

var builtinStructs int
var userStructs []string

func fieldName(n string) string {
	if n == "_" {
		return "f_blank"
	}
	return n + "_"
}

func typeName(t types.Type) string {
	switch x := t.(type) {
	case *types.Named:
		o := x.Obj()
		if o.Pkg() == nil {
			return o.Name()
		}
		return o.Pkg().Path() + "." + o.Name()
	case *types.Alias:
		return typeName(types.Unalias(x))
	}
	return ""
}

func pkgShort(path string) string {
	i := strings.LastIndex(path, "/")
	return strings.NewReplacer("-", "_", ".", "_").Replace(path[i+1:])
}

// sortOf maps a Go type to a Verus sort
func sortOf(t types.Type) string {
	t = types.Unalias(t)
	if n := typeName(t); n != "" {
		if s, ok := specialTypes[n]; ok {
			if s == "unit" {
				return "()"
			}
			return s
		}
		if n == "error" || n == "any" {
			return "Any"
		}
		if strings.HasSuffix(n, ".testingT") {
			return "T_T"
		}
		if strings.HasSuffix(n, ".JSONMatcher") || strings.HasSuffix(n, ".YAMLMatcher") {
			return "T_Matcher"
		}
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && !strings.Contains(n.Obj().Pkg().Path(), "go-snaps") {
		if _, ok := n.Underlying().(*types.Signature); ok {
			return "Opq"
		}
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case x.Info()&types.IsString != 0:
			return Str
		case x.Info()&types.IsBoolean != 0:
			return "bool"
		case x.Info()&types.IsInteger != 0:
			return "int"
		case x.Kind() == types.UntypedNil:
			return "Any"
		}
		return "Opq"
	case *types.Slice:
		return seqSort(x.Elem())
	case *types.Array:
		return seqSort(x.Elem())
	case *types.Map:
		return "Map<" + sortOf(x.Key()) + "," + sortOf(x.Elem()) + ">"
	case *types.Pointer:
		if isOpaque(x.Elem()) {
			return "Opq"
		}
		return "Option<" + sortOf(x.Elem()) + ">"
	case *types.Struct:
		return structSort(t, x)
	case *types.Interface:
		return "Any"
	case *types.TypeParam:
		return "Any"
	case *types.Signature:
		if t := transformed(x); t != nil {
			return "spec_fn(" + sortOf(t) + ") -> " + sortOf(t)
		}
		var ps []string
		for i := 0; i < x.Params().Len(); i++ {
			ps = append(ps, sortOf(x.Params().At(i).Type()))
		}
		r := "()"
		if x.Results().Len() == 1 {
			r = sortOf(x.Results().At(0).Type())
		} else if x.Results().Len() > 1 {
			var rs []string
			for i := 0; i < x.Results().Len(); i++ {
				rs = append(rs, sortOf(x.Results().At(i).Type()))
			}
			r = "(" + strings.Join(rs, ",") + ")"
		}
		return "spec_fn(" + strings.Join(ps, ",") + ") -> " + r
	case *types.Tuple:
		return "tuple"
	}
	return "Opq"
}

func seqSort(e types.Type) string {
	if b, ok := e.Underlying().(*types.Basic); ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int32) {
		if b.Kind() == types.Uint8 {
			return Str
		}
	}
	s := sortOf(e)
	if s == "int" {
		return "Str" // Seq<int>
	}
	return "Seq<" + s + ">"
}

func isOpaque(t types.Type) bool {
	t = types.Unalias(t)
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	if _, sp := specialTypes[typeName(n)]; sp {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	if n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), repoPath) {
		return false
	}
	// external: opaque when it has any unexported field or none
	for i := 0; i < st.NumFields(); i++ {
		if !st.Field(i).Exported() {
			return true
		}
	}
	if st.NumFields() == 0 || strings.Contains(typeName(n), "go/ast") || strings.Contains(typeName(n), "goccy") || strings.Contains(typeName(n), "gjson") || strings.Contains(typeName(n), "diffmatchpatch") || strings.Contains(typeName(n), "testing") {
		return true
	}
	return false
}

var anonCount int
var anonNames = map[string]string{}

func structSort(t types.Type, st *types.Struct) string {
	if st.NumFields() == 0 {
		return "()"
	}
	if isOpaque(t) {
		return "Opq"
	}
	name := ""
	if n, ok := t.(*types.Named); ok {
		name = "T_" + pkgShort(n.Obj().Pkg().Path()) + "_" + n.Obj().Name()
		name = strings.NewReplacer("-", "_", ".", "_").Replace(name)
		if ta := n.TypeArgs(); ta != nil && ta.Len() > 0 {
			name += "_inst"
		}
	} else {
		key := st.String()
		if anonNames[key] == "" {
			anonCount++
			anonNames[key] = fmt.Sprintf("T_anon%d", anonCount)
		}
		name = anonNames[key]
	}
	if structs[name] == nil {
		si := &StructInfo{Name: name}
		structs[name] = si
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			s := sortOf(f.Type())
			if s == "()" {
				continue
			}
			if s == name || s == "Option<"+name+">" {
				s = "Opq"
			}
			si.Fields = append(si.Fields, fieldName(f.Name()))
			si.Sorts = append(si.Sorts, s)
		}
		userStructs = append(userStructs, name)
	}
	return name
}

func zero(sort string) *Term {
	switch {
	case sort == Str:
		return tLit("")
	case sort == "int":
		return tInt(0)
	case sort == "bool":
		return tFalse
	case sort == "Any":
		return tNil
	case sort == "()":
		return tRaw("()", "()")
	case sort == "Opq":
		return tVar("opq_nil()", "Opq")
	case strings.HasPrefix(sort, "Seq<"):
		return tEmpty(sort)
	case strings.HasPrefix(sort, "Map<"):
		return tMapEmpty(sort)
	case strings.HasPrefix(sort, "Option<"):
		return tNone(optSort(sort))
	case strings.HasPrefix(sort, "spec_fn"):
		return tVar("arbitrary::<"+sort+">()", sort)
	}
	if si := structs[sort]; si != nil {
		vals := make([]*Term, len(si.Fields))
		for i := range vals {
			vals[i] = zero(si.Sorts[i])
		}
		return tStruct(si, vals...)
	}
	panic(unsupported("zero of " + sort))
}

var tNil = &Term{Op: "app", Name: "Any::Nil", Sort: "Any", S: "Any::Nil"}

func structDecls() string {
	var b strings.Builder
	for _, n := range userStructs {
		si := structs[n]
		fmt.Fprintf(&b, "pub struct %s {", n)
		for i := range si.Fields {
			fmt.Fprintf(&b, " pub %s: %s,", si.Fields[i], si.Sorts[i])
		}
		b.WriteString(" }\n")
	}
	return b.String()
}

// transformed: a function that takes a pointer to a struct and gives nothing back is the change it makes to the struct
func transformed(sig *types.Signature) types.Type {
	if sig.Results().Len() != 0 || sig.Params().Len() != 1 || sig.Recv() != nil {
		return nil
	}
	p, ok := sig.Params().At(0).Type().Underlying().(*types.Pointer)
	if !ok || isOpaque(p.Elem()) {
		return nil
	}
	if _, ok := p.Elem().Underlying().(*types.Struct); !ok {
		return nil
	}
	return p.Elem()
}
