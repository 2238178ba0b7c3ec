package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type PE struct {
	k byte // f field, i index, k map key, o option
	f string
	t *Term
}
type Loc struct {
	obj  int
	path []PE
}

func (l Loc) ext(p PE) Loc {
	np := make([]PE, len(l.path)+1)
	copy(np, l.path)
	np[len(l.path)] = p
	return Loc{l.obj, np}
}

func (l Loc) key() string {
	s := fmt.Sprint(l.obj)
	for _, p := range l.path {
		s += "/" + string(p.k) + p.f
		if p.t != nil {
			s += p.t.S
		}
	}
	return s
}

// values
type Val interface{}
type TV struct{ T *Term }
type Ptr struct {
	L   Loc
	Nil *Term // condition under which the pointer is nil (nil: never)
	GT  types.Type
}
type Sl struct {
	L  Loc // location of the sequence
	RO bool
}
type Mp struct{ L Loc }
type Tup []Val
type Clo struct {
	fn   *ssa.Function
	free []Val
}
type NilV struct{}
type IfaceV struct {
	t types.Type
	v Val
}

// map iterator: object with ghost fields, and the map ranged over as it was
type IterV struct {
	obj int
	m   string
}
type BuiltinV struct{ name string }

type ObjMeta struct {
	name    string
	sort    string
	shared  bool // reachable by other goroutines (globals, pointer params)
	caller  bool // bytes owned by the caller: must not be written
	goType  types.Type
	scanObj int  // token of this scanner
	copyOf  bool // a copy of what a loaded pointer refers to
	origins []Loc
	from    string // the place this slice was loaded from
	cut     bool   // ends before its backing array does
	sliceOf string // a slice that shares its elements with something else
}

type Stmt struct {
	kind byte // 'l' let, 'a' assume, 'o' obligation, 'h' hint text, 'c' comment
	name string
	t    *Term
	text string
	ob   *Oblig
}

type Oblig struct {
	Fn    string
	Name  string
	Props []string
	Text  string
	Pos   string
	id    int
	Reach bool // a reachability probe, must fail
}

type State struct {
	heap  map[int]*Term
	ghost map[string]*Term
	locks map[string]int
	acq   map[string]*Term // values of guarded things at last acquire
	facts map[string]bool
	fwd   map[int]Loc
	after map[string]*Ctx // the state after the last call of a function that hints refer to
	cells map[int]Val     // what a variable of pointer or function type holds
	stmts []*Stmt
}

func newState() *State {
	return &State{heap: map[int]*Term{}, ghost: map[string]*Term{}, locks: map[string]int{}, acq: map[string]*Term{}, facts: map[string]bool{}, fwd: map[int]Loc{}, after: map[string]*Ctx{}, cells: map[int]Val{}}
}

func (s *State) clone() *State {
	n := newState()
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	for k, v := range s.locks {
		n.locks[k] = v
	}
	for k, v := range s.acq {
		n.acq[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.fwd {
		n.fwd[k] = v
	}
	for k, v := range s.after {
		n.after[k] = v
	}
	n.stmts = s.stmts[:len(s.stmts):len(s.stmts)]
	return n
}

func (s *State) resolve(l Loc) Loc {
	for {
		if p, ok := s.cells[l.obj].(Ptr); ok && len(l.path) > 0 && l.path[0].k == 'o' {
			l = Loc{p.L.obj, append(append([]PE{}, p.L.path...), l.path[1:]...)}
			continue
		}
		f, ok := s.fwd[l.obj]
		if !ok {
			return l
		}
		np := append(append([]PE{}, f.path...), l.path...)
		l = Loc{f.obj, np}
	}
}

func readPath(t *Term, path []PE) *Term {
	for _, p := range path {
		switch p.k {
		case 'f':
			t = tField(t, p.f)
		case 'i':
			t = tIdx(t, p.t)
		case 'k':
			t = tMapGet(t, p.t)
		case 'o':
			t = tUnwrap(t)
		}
	}
	return t
}

func writePath(t *Term, path []PE, x *Term) *Term {
	if len(path) == 0 {
		return x
	}
	p := path[0]
	switch p.k {
	case 'f':
		return tSetField(t, p.f, writePath(tField(t, p.f), path[1:], x))
	case 'i':
		return tUpd(t, p.t, writePath(tIdx(t, p.t), path[1:], x))
	case 'k':
		return tMapIns(t, p.t, writePath(tMapGet(t, p.t), path[1:], x))
	case 'o':
		return tSome(writePath(tUnwrap(t), path[1:], x))
	}
	panic("path")
}

func (s *State) read(l Loc) *Term {
	l = s.resolve(l)
	c := s.heap[l.obj]
	if v, ok := s.cells[l.obj]; ok {
		p, ok := v.(Ptr)
		if !ok || len(l.path) > 0 {
			panic(unsupported("a variable of function type used as a value"))
		}
		r := s.read(p.L)
		if p.Nil != nil {
			return tIte(p.Nil, tNone(r.Sort), tSome(r))
		}
		return tSome(r)
	}
	if c == nil {
		panic(unsupported(fmt.Sprintf("read of unknown object %d", l.obj)))
	}
	return readPath(c, l.path)
}

func (s *State) writeRaw(l Loc, x *Term) {
	l = s.resolve(l)
	s.heap[l.obj] = writePath(s.heap[l.obj], l.path, x)
}

type deferred struct {
	call *ssa.CallCommon
	vals []Val
	fn   Val
	pos  ssa.Instruction
}

type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Val
	env    map[string]Val
	addr   map[string]bool
	defers []deferred
	parent *Frame
	loops  map[*ssa.BasicBlock]*loopCtx
	ctr    *Contract
	old    *State
	params map[string]Val
	depth  int
}

type loopCtx struct {
	win     *window
	dropped map[string]bool // invariants that name what this code no longer has
	header  *ssa.BasicBlock
	spec    *LoopSpec
	pre     *State // state at loop entry (before havoc)
	preEnv  map[string]Val
	headEnv map[string]Val
	head    *State // state right after havoc
	dry     *dryInfo
	auto    []autoInv
}
type autoInv struct {
	phi *ssa.Phi
	f   func(st *State, v *Term) *Term
	nm  string
}

type dryInfo struct {
	objs   map[int]*Term // object -> nil: whole; recorded as set of fields
	fields map[int]map[string]bool
	ghosts map[string]bool
	n      int
}

func (f *Frame) clone() *Frame {
	n := *f
	n.regs = map[ssa.Value]Val{}
	for k, v := range f.regs {
		n.regs[k] = v
	}
	n.env = map[string]Val{}
	for k, v := range f.env {
		n.env[k] = v
	}
	n.addr = map[string]bool{}
	for k, v := range f.addr {
		n.addr[k] = v
	}
	n.loops = map[*ssa.BasicBlock]*loopCtx{}
	for k, v := range f.loops {
		n.loops[k] = v
	}
	n.defers = append([]deferred{}, f.defers...)
	return &n
}
