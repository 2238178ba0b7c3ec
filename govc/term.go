package main

import (
	"crypto/sha1"
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Term is a Verus spec expression with a printed form, kept simplified so that
// syntactic equality and constants can be used for pruning.
type Term struct {
	Op   string // var int bool lit app field struct not and or eq cmp add sub cat ite some none raw
	Name string
	A    []*Term
	Sort string
	Lit  string // for lit
	I    int64  // for int
	S    string // printed
	Def  *Term  // let definition (for var)
}

func (t *Term) String() string { return t.S }

// view looks through let bindings
func (t *Term) view() *Term {
	for t.Def != nil {
		t = t.Def
	}
	return t
}

const Str = "Str"

func tVar(name, sort string) *Term { return &Term{Op: "var", Name: name, Sort: sort, S: name} }
func tRaw(s, sort string) *Term    { return &Term{Op: "raw", Sort: sort, S: "(" + s + ")"} }
func tInt(i int64) *Term {
	s := strconv.FormatInt(i, 10) + "int"
	if i < 0 {
		s = "(" + s + ")"
		s = fmt.Sprintf("(-%dint)", -i)
	}
	return &Term{Op: "int", I: i, Sort: "int", S: s}
}

var tTrue = &Term{Op: "bool", I: 1, Sort: "bool", S: "true"}
var tFalse = &Term{Op: "bool", I: 0, Sort: "bool", S: "false"}

func tBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

var litTable = map[string]string{} // name -> value

func litName(v string) string {
	if v == "" {
		return "lit_empty"
	}
	ok := len(v) <= 24
	for i := 0; i < len(v) && ok; i++ {
		c := v[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
			ok = false
		}
	}
	if ok {
		return "lit_" + v
	}
	h := sha1.Sum([]byte(v))
	return fmt.Sprintf("lit_h%x", h[:5])
}

func tLit(v string) *Term {
	n := litName(v)
	litTable[n] = v
	return &Term{Op: "lit", Lit: v, Sort: Str, S: n + "()"}
}

func litDefs() string {
	names := make([]string, 0)
	for n := range litTable {
		names = append(names, n)
	}
	sort.Strings(names)
	var b strings.Builder
	for _, n := range names {
		v := litTable[n]
		if len(v) > 40 {
			fmt.Fprintf(&b, "// %q\npub uninterp spec fn %s() -> Str;\n", v, n)
			continue
		}
		el := make([]string, len(v))
		for i := 0; i < len(v); i++ {
			el[i] = strconv.Itoa(int(v[i])) + "int"
		}
		if len(v) == 0 {
			fmt.Fprintf(&b, "pub open spec fn %s() -> Str { Seq::<int>::empty() }\n", n)
		} else {
			fmt.Fprintf(&b, "// %q\npub open spec fn %s() -> Str { seq![%s] }\n", v, n, strings.Join(el, ", "))
		}
	}
	return b.String()
}

func tApp(name, sort string, args ...*Term) *Term {
	ss := make([]string, len(args))
	for i, a := range args {
		ss[i] = a.S
	}
	return &Term{Op: "app", Name: name, A: args, Sort: sort, S: name + "(" + strings.Join(ss, ", ") + ")"}
}

func tNot(a *Term) *Term {
	v := a.view()
	switch v.Op {
	case "bool":
		return tBool(v.I == 0)
	case "not":
		return v.A[0]
	}
	return &Term{Op: "not", A: []*Term{a}, Sort: "bool", S: "(!" + a.S + ")"}
}

func tAnd(a, b *Term) *Term {
	if isF(a) || isF(b) {
		return tFalse
	}
	if isT(a) {
		return b
	}
	if isT(b) {
		return a
	}
	return &Term{Op: "and", A: []*Term{a, b}, Sort: "bool", S: "(" + a.S + " && " + b.S + ")"}
}
func tOr(a, b *Term) *Term {
	if isT(a) || isT(b) {
		return tTrue
	}
	if isF(a) {
		return b
	}
	if isF(b) {
		return a
	}
	return &Term{Op: "or", A: []*Term{a, b}, Sort: "bool", S: "(" + a.S + " || " + b.S + ")"}
}
func isT(t *Term) bool { v := t.view(); return v.Op == "bool" && v.I == 1 }
func isF(t *Term) bool { v := t.view(); return v.Op == "bool" && v.I == 0 }

func tEq(a, b *Term) *Term {
	if a.S == b.S {
		return tTrue
	}
	va, vb := a.view(), b.view()
	if va.S == vb.S {
		return tTrue
	}
	if va.Op == "int" && vb.Op == "int" {
		return tBool(va.I == vb.I)
	}
	if va.Op == "lit" && vb.Op == "lit" {
		return tBool(va.Lit == vb.Lit)
	}
	if va.Op == "bool" {
		if va.I == 1 {
			return b
		}
		return tNot(b)
	}
	if vb.Op == "bool" {
		if vb.I == 1 {
			return a
		}
		return tNot(a)
	}
	if va.Op == "none" && vb.Op == "none" {
		return tTrue
	}
	if (va.Op == "none" && vb.Op == "some") || (va.Op == "some" && vb.Op == "none") {
		return tFalse
	}
	if va.Op == "some" && vb.Op == "some" {
		return tEq(va.A[0], vb.A[0])
	}
	if va.Op == "app" && vb.Op == "app" && strings.HasPrefix(va.Name, "Any::") && strings.HasPrefix(vb.Name, "Any::") {
		if va.Name != vb.Name {
			return tFalse
		}
	}
	if strings.HasPrefix(a.Sort, "Seq<") || a.Sort == Str || strings.HasPrefix(a.Sort, "Map<") {
		return &Term{Op: "eq", A: []*Term{a, b}, Sort: "bool", S: "(" + a.S + " =~= " + b.S + ")"}
	}
	return &Term{Op: "eq", A: []*Term{a, b}, Sort: "bool", S: "(" + a.S + " == " + b.S + ")"}
}

func tCmp(op string, a, b *Term) *Term {
	va, vb := a.view(), b.view()
	if va.Op == "int" && vb.Op == "int" {
		x, y := va.I, vb.I
		switch op {
		case "<":
			return tBool(x < y)
		case "<=":
			return tBool(x <= y)
		case ">":
			return tBool(x > y)
		case ">=":
			return tBool(x >= y)
		}
	}
	if op == ">" {
		return tCmp("<", b, a)
	}
	if op == ">=" {
		return tCmp("<=", b, a)
	}
	return &Term{Op: "cmp", Name: op, A: []*Term{a, b}, Sort: "bool", S: "(" + a.S + " " + op + " " + b.S + ")"}
}

func tArith(op string, a, b *Term) *Term {
	va, vb := a.view(), b.view()
	if va.Op == "int" && vb.Op == "int" {
		switch op {
		case "+":
			return tInt(va.I + vb.I)
		case "-":
			return tInt(va.I - vb.I)
		case "*":
			return tInt(va.I * vb.I)
		}
	}
	if vb.Op == "int" && vb.I == 0 && (op == "+" || op == "-") {
		return a
	}
	if va.Op == "int" && va.I == 0 && op == "+" {
		return b
	}
	// (x + c1) + c2
	if (op == "+" || op == "-") && vb.Op == "int" && va.Op == "arith" && (va.Name == "+" || va.Name == "-") && va.A[1].view().Op == "int" {
		c := va.A[1].view().I
		if va.Name == "-" {
			c = -c
		}
		if op == "+" {
			c += vb.I
		} else {
			c -= vb.I
		}
		if c == 0 {
			return va.A[0]
		}
		if c > 0 {
			return tArith("+", va.A[0], tInt(c))
		}
		return tArith("-", va.A[0], tInt(-c))
	}
	return &Term{Op: "arith", Name: op, A: []*Term{a, b}, Sort: "int", S: "(" + a.S + " " + op + " " + b.S + ")"}
}

// cat: sequence concatenation, flattened to the left
func tCat(a, b *Term) *Term {
	va, vb := a.view(), b.view()
	if va.Op == "lit" && va.Lit == "" {
		return b
	}
	if vb.Op == "lit" && vb.Lit == "" {
		return a
	}
	if va.Op == "emptyseq" {
		return b
	}
	if vb.Op == "emptyseq" {
		return a
	}
	if va.Op == "lit" && vb.Op == "lit" {
		return tLit(va.Lit + vb.Lit)
	}
	if vb.Op == "cat" {
		return tCat(tCat(a, vb.A[0]), vb.A[1])
	}
	if va.Op == "cat" && vb.Op == "lit" && va.A[1].view().Op == "lit" {
		return tCat(va.A[0], tLit(va.A[1].view().Lit+vb.Lit))
	}
	return &Term{Op: "cat", A: []*Term{a, b}, Sort: a.Sort, S: "(" + a.S + " + " + b.S + ")"}
}

func elemSort(s string) string {
	if s == Str {
		return "int"
	}
	if strings.HasPrefix(s, "Seq<") {
		return s[4 : len(s)-1]
	}
	return ""
}

func mapSorts(s string) (string, string) {
	in := s[4 : len(s)-1]
	d := 0
	for i, c := range in {
		switch c {
		case '<', '(':
			d++
		case '>', ')':
			d--
		case ',':
			if d == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("mapSorts " + s)
}

func optSort(s string) string { return s[len("Option<") : len(s)-1] }

func isSeq(s string) bool { return s == Str || strings.HasPrefix(s, "Seq<") }

func tEmpty(sort string) *Term {
	if sort == Str {
		return tLit("")
	}
	return &Term{Op: "emptyseq", Sort: sort, S: "Seq::<" + elemSort(sort) + ">::empty()"}
}

func tPush(s, x *Term) *Term {
	return &Term{Op: "push", A: []*Term{s, x}, Sort: s.Sort, S: s.S + ".push(" + x.S + ")"}
}

func tSeq(sort string, xs ...*Term) *Term {
	t := tEmpty(sort)
	for _, x := range xs {
		t = tPush(t, x)
	}
	return t
}

func tLen(s *Term) *Term {
	v := s.view()
	switch v.Op {
	case "lit":
		return tInt(int64(len(v.Lit)))
	case "emptyseq":
		return tInt(0)
	case "push":
		return tArith("+", tLen(v.A[0]), tInt(1))
	}
	return &Term{Op: "len", A: []*Term{s}, Sort: "int", S: "(" + s.S + ".len() as int)"}
}

func tIdx(s, i *Term) *Term {
	v, vi := s.view(), i.view()
	if v.Op == "push" && vi.Op == "int" {
		l := tLen(v.A[0]).view()
		if l.Op == "int" {
			if l.I == vi.I {
				return v.A[1]
			}
			if vi.I < l.I {
				return tIdx(v.A[0], i)
			}
		}
	}
	if v.Op == "lit" && vi.Op == "int" && vi.I >= 0 && vi.I < int64(len(v.Lit)) {
		return tInt(int64(v.Lit[vi.I]))
	}
	if v.Op == "update" && v.A[1].S == i.S {
		return v.A[2]
	}
	return &Term{Op: "idx", A: []*Term{s, i}, Sort: elemSort(s.Sort), S: s.S + "[" + i.S + "]"}
}

func tUpd(s, i, x *Term) *Term {
	v, vi := s.view(), i.view()
	if v.Op == "push" && vi.Op == "int" {
		l := tLen(v.A[0]).view()
		if l.Op == "int" {
			if l.I == vi.I {
				return tPush(v.A[0], x)
			}
			if vi.I < l.I {
				return tPush(tUpd(v.A[0], i, x), v.A[1])
			}
		}
	}
	return &Term{Op: "update", A: []*Term{s, i, x}, Sort: s.Sort, S: s.S + ".update(" + i.S + ", " + x.S + ")"}
}

func tSub(s, lo, hi *Term) *Term {
	v := s.view()
	l, h := lo.view(), hi.view()
	if l.Op == "int" && l.I == 0 && h.S == tLen(s).S {
		return s
	}
	if v.Op == "lit" && l.Op == "int" && h.Op == "int" && 0 <= l.I && l.I <= h.I && h.I <= int64(len(v.Lit)) {
		return tLit(v.Lit[l.I:h.I])
	}
	if l.Op == "int" && h.Op == "int" && l.I == h.I {
		return tEmpty(s.Sort)
	}
	if h.S == tLen(s).S {
		return &Term{Op: "skip", A: []*Term{s, lo}, Sort: s.Sort, S: s.S + ".skip(" + lo.S + ")"}
	}
	if l.Op == "int" && l.I == 0 {
		return &Term{Op: "take", A: []*Term{s, hi}, Sort: s.Sort, S: s.S + ".take(" + hi.S + ")"}
	}
	return &Term{Op: "sub", A: []*Term{s, lo, hi}, Sort: s.Sort, S: s.S + ".subrange(" + lo.S + ", " + hi.S + ")"}
}

func tSome(x *Term) *Term {
	return &Term{Op: "some", A: []*Term{x}, Sort: "Option<" + x.Sort + ">", S: "Some(" + x.S + ")"}
}
func tNone(inner string) *Term {
	return &Term{Op: "none", Sort: "Option<" + inner + ">", S: "None::<" + inner + ">"}
}
func tIsNone(o *Term) *Term {
	v := o.view()
	switch v.Op {
	case "none":
		return tTrue
	case "some":
		return tFalse
	}
	return &Term{Op: "isnone", A: []*Term{o}, Sort: "bool", S: "(" + o.S + " is None)"}
}
func tUnwrap(o *Term) *Term {
	v := o.view()
	if v.Op == "some" {
		return v.A[0]
	}
	return &Term{Op: "unwrap", A: []*Term{o}, Sort: optSort(o.Sort), S: o.S + "->0"}
}

// maps
func tMapEmpty(sort string) *Term {
	k, v := mapSorts(sort)
	return &Term{Op: "emptymap", Sort: sort, S: "Map::<" + k + ", " + v + ">::empty()"}
}
func tMapHas(m, k *Term) *Term {
	v := m.view()
	switch v.Op {
	case "emptymap":
		return tFalse
	case "insert":
		if v.A[1].S == k.S {
			return tTrue
		}
	}
	return &Term{Op: "has", A: []*Term{m, k}, Sort: "bool", S: m.S + ".dom().contains(" + k.S + ")"}
}
func tMapGet(m, k *Term) *Term {
	v := m.view()
	if v.Op == "insert" && v.A[1].S == k.S {
		return v.A[2]
	}
	_, vs := mapSorts(m.Sort)
	return &Term{Op: "get", A: []*Term{m, k}, Sort: vs, S: m.S + "[" + k.S + "]"}
}
func tMapIns(m, k, x *Term) *Term {
	v := m.view()
	if v.Op == "insert" && v.A[1].S == k.S {
		m = v.A[0]
	}
	return &Term{Op: "insert", A: []*Term{m, k, x}, Sort: m.Sort, S: m.S + ".insert(" + k.S + ", " + x.S + ")"}
}
func tMapDel(m, k *Term) *Term {
	return &Term{Op: "remove", A: []*Term{m, k}, Sort: m.Sort, S: m.S + ".remove(" + k.S + ")"}
}

func tIte(c, a, b *Term) *Term {
	if isT(c) {
		return a
	}
	if isF(c) {
		return b
	}
	if a.S == b.S {
		return a
	}
	return &Term{Op: "ite", A: []*Term{c, a, b}, Sort: a.Sort, S: "(if " + c.S + " { " + a.S + " } else { " + b.S + " })"}
}

// struct sorts
type StructInfo struct {
	Name   string
	Fields []string
	Sorts  []string
}

var structs = map[string]*StructInfo{}

func (si *StructInfo) idx(f string) int {
	for i, n := range si.Fields {
		if n == f {
			return i
		}
	}
	return -1
}

func tStruct(si *StructInfo, vals ...*Term) *Term {
	ss := make([]string, len(vals))
	for i, v := range vals {
		ss[i] = si.Fields[i] + ": " + v.S
	}
	// eta: S{f: x.f, ...} == x
	if len(vals) > 0 {
		if b := vals[0].view(); b.Op == "field" && b.A[0].Sort == si.Name {
			base := b.A[0]
			same := true
			for i, v := range vals {
				vv := v.view()
				if vv.Op != "field" || vv.A[0].S != base.S || vv.Name != si.Fields[i] {
					same = false
				}
			}
			if same {
				return base
			}
		}
	}
	return &Term{Op: "struct", Name: si.Name, A: vals, Sort: si.Name, S: si.Name + " { " + strings.Join(ss, ", ") + " }"}
}

func tField(t *Term, f string) *Term {
	si := structs[t.Sort]
	if si == nil {
		panic(unsupported("field " + f + " of " + t.Sort))
	}
	i := si.idx(f)
	if i < 0 {
		panic(unsupported("no field " + f + " in " + t.Sort))
	}
	v := t.view()
	if v.Op == "struct" {
		return v.A[i]
	}
	if v.Op == "ite" {
		return tIte(v.A[0], tField(v.A[1], f), tField(v.A[2], f))
	}
	return &Term{Op: "field", Name: f, A: []*Term{t}, Sort: si.Sorts[i], S: t.S + "." + f}
}

func tSetField(t *Term, f string, x *Term) *Term {
	si := structs[t.Sort]
	vals := make([]*Term, len(si.Fields))
	for i, n := range si.Fields {
		if n == f {
			vals[i] = x
		} else {
			vals[i] = tField(t, n)
		}
	}
	return tStruct(si, vals...)
}

type unsupportedErr struct{ msg string }

func unsupported(msg string) unsupportedErr { return unsupportedErr{msg} }
