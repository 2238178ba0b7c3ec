package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type mcall struct {
	e    *Exec
	st   *State
	fr   *Frame
	fn   *ssa.Function
	args []Val
	pos  token.Pos
	k    cont
	c    *ssa.CallCommon
}

func (m *mcall) sig() *types.Signature {
	if m.fn != nil {
		return m.fn.Signature
	}
	return m.c.Signature()
}

// arg i as a term (receiver counts as argument 0 for methods)
func (m *mcall) term(i int) *Term {
	sig := m.sig()
	j := i
	if sig.Recv() != nil || m.c.IsInvoke() {
		j--
	}
	return m.e.toTerm(m.st, m.args[i], sig.Params().At(j).Type())
}

// ptr of an argument: receivers, io.Writer, io.Reader
func (m *mcall) loc(i int) Loc {
	v := m.args[i]
	for {
		switch x := v.(type) {
		case IfaceV:
			v = x.v
			continue
		case Ptr:
			if x.Nil != nil {
				m.e.safe(m.st, m.fr, "nil-recv", tNot(x.Nil), m.pos)
			}
			return m.st.resolve(x.L)
		}
		panic(unsupported(fmt.Sprintf("model argument %d is %T", i, v)))
	}
}

func (m *mcall) obj(i int) *Term { return m.st.read(m.loc(i)) }

func (m *mcall) ret(vs ...Val) { m.k(m.st, vs) }

func (m *mcall) newPtr(t *Term, name string) Ptr {
	return Ptr{L: Loc{obj: m.e.newObj(m.st, t, name)}}
}
func (m *mcall) newSl(t *Term, name string) Sl {
	return Sl{L: Loc{obj: m.e.newObj(m.st, t, name)}}
}

var nilErr = TV{tNil}

func (m *mcall) osErr() TV {
	return TV{tApp("Any::OsErr", "Any", m.e.fresh("oserr", "int"))}
}

// write data to a writer (sink or file)
func (m *mcall) emit(i int, data *Term) {
	l := m.loc(i)
	o := m.st.read(l)
	switch o.Sort {
	case "T_Sink":
		m.e.checkWrite(m.st, m.fr, l, m.pos)
		m.e.write(m.st, l.ext(PE{k: 'f', f: "out"}), tCat(tField(o, "out"), data))
	case "T_File":
		e, st := m.e, m.st
		e.needLock(st, m.fr, "fs", m.pos)
		path := tField(o, "path")
		fs := st.ghost["fs"]
		cur := tMapGet(fs, path)
		app := tField(o, "app").view()
		var nw *Term
		if isT(app) {
			nw = tCat(cur, data)
		} else {
			nw = e.specCall("write_at", Str, cur, tField(o, "pos"), data)
			if p := tField(o, "pos").view(); p.Op == "int" && p.I == 0 && cur.view().Op == "lit" && cur.view().Lit == "" {
				nw = data
			}
			e.write(st, l.ext(PE{k: 'f', f: "pos"}), tArith("+", tField(o, "pos"), tLen(data)))
		}
		nw = e.bind(st, "content", nw)
		e.setGhost(st, "fs", tMapIns(fs, path, nw))
		e.setGhost(st, "wcount", tArith("+", st.ghost["wcount"], tInt(1)))
	default:
		panic(unsupported("write to " + o.Sort))
	}
}

func (e *Exec) setGhost(st *State, n string, t *Term) { st.ghost[n] = e.bind(st, n, t) }

func (e *Exec) needLock(st *State, fr *Frame, g string, pos token.Pos) {
	if e.ctr.Single {
		return
	}
	lock, ok := e.ctr.NeedLock[g]
	if !ok {
		return
	}
	for key, v := range st.locks {
		if v > 0 && e.lockNames[key] == lock {
			return
		}
	}
	e.oblige(st, fr, "lock-held:"+g, []string{"C06"}, tFalse, g+" is accessed with "+lock+" held", pos)
}

func anyFmt(e *Exec, a *Term, verb byte) *Term {
	v := a.view()
	if v.Op == "app" {
		switch v.Name {
		case "Any::S":
			return v.A[0]
		case "Any::B":
			if verb == 's' {
				return v.A[0]
			}
		case "Any::I":
			if verb == 'd' || verb == 'v' {
				return tApp("itoa", Str, v.A[0])
			}
		case "Any::E":
			return v.A[0]
		}
	}
	return tApp(fmt.Sprintf("fmt_%c", verb), Str, a)
}

// seqElems lists the elements of a literal sequence
func seqElems(t *Term) ([]*Term, bool) {
	v := t.view()
	var r []*Term
	for v.Op == "push" {
		r = append([]*Term{v.A[1]}, r...)
		v = v.A[0].view()
	}
	return r, v.Op == "emptyseq"
}

func (m *mcall) format(fi, ai int) *Term {
	f := m.term(fi)
	var args *Term
	if _, ok := m.args[ai].(NilV); ok {
		args = tEmpty("Seq<Any>")
	} else {
		args = m.term(ai)
	}
	els, ok := seqElems(args)
	fv := f.view()
	if fv.Op != "lit" {
		if ok && len(els) == 1 {
			if v := els[0].view(); v.Op == "app" && v.Name == "Any::I" {
				return tApp("sprintf_d", Str, f, v.A[0])
			}
		}
		return m.e.uninterpApp("fmt_Sprintf", Str, f, args)
	}
	if !ok {
		return m.e.uninterpApp("fmt_Sprintf", Str, f, args)
	}
	r := tLit("")
	s := fv.Lit
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			r = tCat(r, tLit(s[i:i+1]))
			continue
		}
		i++
		if i >= len(s) {
			return m.e.uninterpApp("fmt_Sprintf", Str, f, args)
		}
		switch s[i] {
		case '%':
			r = tCat(r, tLit("%"))
		case 's', 'd', 'v', 'w':
			if n >= len(els) {
				return m.e.uninterpApp("fmt_Sprintf", Str, f, args)
			}
			vb := s[i]
			if vb == 'w' {
				vb = 'v'
			}
			r = tCat(r, anyFmt(m.e, els[n], vb))
			n++
		default:
			if n < len(els) && (s[i] == 'q' || s[i] == 'T' || s[i] == 'x') {
				r = tCat(r, tApp("fmt_"+string(s[i]), Str, els[n]))
				n++
				continue
			}
			return m.e.uninterpApp("fmt_Sprintf", Str, f, args)
		}
	}
	if n != len(els) {
		return m.e.uninterpApp("fmt_Sprintf", Str, f, args)
	}
	return r
}

var models = map[string]func(m *mcall){}

func mdl(f func(m *mcall), names ...string) {
	for _, n := range names {
		models[n] = f
	}
}

const maxInt = math.MaxInt64

func init() {
	// --- locks
	mdl(func(m *mcall) { m.e.acquire(m.st, m.fr, m.args[0], true, m.pos); m.ret() }, "sync.(Mutex).Lock", "sync.(RWMutex).Lock")
	mdl(func(m *mcall) { m.e.acquire(m.st, m.fr, m.args[0], false, m.pos); m.ret() }, "sync.(RWMutex).RLock")
	mdl(func(m *mcall) { m.e.release(m.st, m.fr, m.args[0], true, m.pos); m.ret() }, "sync.(Mutex).Unlock", "sync.(RWMutex).Unlock")
	mdl(func(m *mcall) { m.e.release(m.st, m.fr, m.args[0], false, m.pos); m.ret() }, "sync.(RWMutex).RUnlock")

	// --- scanner
	mdl(func(m *mcall) {
		src := m.obj(0)
		var content *Term
		switch src.Sort {
		case "T_Sink":
			content = tField(src, "out")
		case "T_File":
			m.e.needLock(m.st, m.fr, "fs", m.pos)
			content = tSub(tMapGet(m.st.ghost["fs"], tField(src, "path")), tField(src, "pos"), tLen(tMapGet(m.st.ghost["fs"], tField(src, "path"))))
			if p := tField(src, "pos").view(); p.Op == "int" && p.I == 0 {
				content = tMapGet(m.st.ghost["fs"], tField(src, "path"))
			}
		default:
			panic(unsupported("scanner over " + src.Sort))
		}
		r := m.e.bind(m.st, "all_lines", tApp("lines", "Seq<Str>", content))
		m.ret(m.newPtr(tStruct(structs["T_Scanner"], r, tLit(""), tInt(65536)), "scanner"))
	}, "bufio.NewScanner")
	mdl(func(m *mcall) {
		m.e.write(m.st, m.loc(0).ext(PE{k: 'f', f: "max"}), m.term(2))
		m.ret()
	}, "bufio.(Scanner).Buffer")
	mdl(func(m *mcall) {
		l := m.loc(0)
		o := m.st.read(l)
		rest, max := tField(o, "rest"), tField(o, "max")
		c := tCmp(">", tLen(rest), tInt(0))
		if v := max.view(); !(v.Op == "int" && v.I == maxInt) {
			c = tAnd(c, tOr(tEq(max, tInt(maxInt)), tCmp("<", tLen(tIdx(rest, tInt(0))), max)))
		}
		m.e.fork(m.st, c, func(st *State, v bool) {
			m.e.invalidate(st, l.obj)
			if v {
				st.writeRaw(l, tStruct(structs["T_Scanner"], tSub(rest, tInt(1), tLen(rest)), tIdx(rest, tInt(0)), max))
			} else {
				st.writeRaw(l, tStruct(structs["T_Scanner"], rest, tLit(""), max))
			}
			m.k(st, []Val{TV{tBool(v)}})
		})
	}, "bufio.(Scanner).Scan")
	mdl(func(m *mcall) {
		l := m.loc(0)
		s := m.newSl(tField(m.st.read(l), "cur"), "tok")
		m.e.metas[s.L.obj].scanObj = l.obj
		m.ret(s)
	}, "bufio.(Scanner).Bytes")
	mdl(func(m *mcall) { m.ret(TV{tField(m.obj(0), "cur")}) }, "bufio.(Scanner).Text")
	mdl(func(m *mcall) {
		rest := tField(m.obj(0), "rest")
		m.e.fork(m.st, tCmp(">", tLen(rest), tInt(0)), func(st *State, v bool) {
			if v {
				m.k(st, []Val{m.osErr()})
			} else {
				m.k(st, []Val{nilErr})
			}
		})
	}, "bufio.(Scanner).Err")

	// --- sinks
	for _, t := range []string{"strings.(Builder)", "bytes.(Buffer)"} {
		mdl(func(m *mcall) { d := m.term(1); m.emit(0, d); m.ret(TV{tLen(d)}, nilErr) }, t+".Write", t+".WriteString")
		mdl(func(m *mcall) {
			c := m.term(1)
			var d *Term
			if v := c.view(); v.Op == "int" && v.I >= 0 && v.I < 256 {
				d = tLit(string([]byte{byte(v.I)}))
			} else {
				d = tRaw("seq!["+c.S+"]", Str)
			}
			m.emit(0, d)
			m.ret(nilErr)
		}, t+".WriteByte")
		mdl(func(m *mcall) {
			c := m.term(1)
			var d *Term
			if v := c.view(); v.Op == "int" && v.I >= 0 {
				d = tLit(string(rune(v.I)))
			} else {
				d = m.e.uninterpApp("string_of_rune", Str, c)
			}
			m.emit(0, d)
			m.ret(TV{tLen(d)}, nilErr)
		}, t+".WriteRune")
		mdl(func(m *mcall) { m.ret(TV{tField(m.obj(0), "out")}) }, t+".String")
		mdl(func(m *mcall) { m.ret(TV{tLen(tField(m.obj(0), "out"))}) }, t+".Len")
		mdl(func(m *mcall) { m.ret(m.newSl(tField(m.obj(0), "out"), "bytes")) }, t+".Bytes")
		mdl(func(m *mcall) { m.ret() }, t+".Grow")
		mdl(func(m *mcall) {
			m.e.write(m.st, m.loc(0).ext(PE{k: 'f', f: "out"}), tLit(""))
			m.ret()
		}, t+".Reset")
		mdl(func(m *mcall) {
			l := m.loc(0).ext(PE{k: 'f', f: "out"})
			c := m.st.read(l)
			n := m.term(1)
			m.e.safe(m.st, m.fr, "truncate", tAnd(tCmp("<=", tInt(0), n), tCmp("<=", n, tLen(c))), m.pos)
			m.e.write(m.st, l, tSub(c, tInt(0), n))
			m.ret()
		}, t+".Truncate")
	}
	mdl(func(m *mcall) {
		m.ret(m.newPtr(tStruct(structs["T_Sink"], m.term(0)), "reader"))
	}, "bytes.NewReader", "strings.NewReader", "bytes.NewBufferString", "bytes.NewBuffer")
	mdl(func(m *mcall) { d := m.term(1); m.emit(0, d); m.ret(TV{tLen(d)}, nilErr) }, "io.WriteString")

	// --- Go sources
	mdl(func(m *mcall) { m.ret(TV{m.e.fresh("fileset", "Opq")}) }, "go/token.NewFileSet")
	mdl(func(m *mcall) {
		if len(m.args) != 4 {
			panic(unsupported("ParseFile"))
		}
		if _, ok := m.args[2].(NilV); !ok {
			panic(unsupported("ParseFile of a given source"))
		}
		m.e.needLock(m.st, m.fr, "fs", m.pos)
		c := m.e.specCall("sread", "Option<Str>", m.st.ghost["fs"], m.term(1))
		m.e.fork(m.st, m.e.specCall("go_parses", "bool", c), func(st *State, v bool) {
			m2 := *m
			m2.st = st
			if v {
				m2.ret(m2.newPtr(m.e.specCall("go_file", "T_GoFile", c), "gofile"), nilErr)
			} else {
				m2.ret(NilV{}, m2.osErr())
			}
		})
	}, "go/parser.ParseFile")
	mdl(func(m *mcall) { m.ret(TV{m.e.specCall("ident_name", Str, m.args[0].(TV).T)}) }, "go/ast.(Ident).String")

	// --- fmt
	mdl(func(m *mcall) { m.ret(TV{m.e.bind(m.st, "fmt", m.format(0, 1))}) }, "fmt.Sprintf")

	// --- decoders: the error is a function of the document, the decoded value is left open
	decode := func(name string) func(m *mcall) {
		return func(m *mcall) {
			b := m.term(0)
			l := m.loc(1)
			d := m.e.fresh("decoded", m.st.read(l).Sort)
			if d.Sort == "Any" {
				d = m.e.specCall(name+"_value", "Any", b)
			}
			m.e.write(m.st, l, d)
			m.ret(TV{m.e.specCall(name, "Any", b)})
		}
	}
	// --- types at run time
	mdl(func(m *mcall) {
		iv, ok := m.args[0].(IfaceV)
		if !ok {
			m.ret(TV{m.e.specCall("reflect_TypeOf", "Any", m.term(0))})
			return
		}
		m.ret(TV{m.e.specCall("type_"+sanitize(types.TypeString(iv.t, func(p *types.Package) string { return p.Name() })), "Any")})
	}, "reflect.TypeOf")
	mdl(func(m *mcall) { m.ret(TV{m.e.specCall("type_elem", "Any", m.args[0].(TV).T)}) }, "invoke reflect.Type.Elem")
	// --- matchers: setting a value writes nothing to the document given unless asked to
	mdl(func(m *mcall) {
		o := m.term(3)
		m.e.oblige(m.st, m.fr, "frame:caller-bytes", []string{"C15"}, tRaw(fmt.Sprintf("%s is Some ==> !%s->Some_0.ReplaceInPlace_", o.S, o.S), "bool"), "the document is not changed in place", m.pos)
		a, b, c := m.term(0), m.term(1), m.term(2)
		m.ret(m.newSl(m.e.specCall("sjson_set", Str, a, b, c), "set"), TV{m.e.specCall("sjson_set_err", "Any", a, b, c)})
	}, "github.com/tidwall/sjson.SetBytesOptions")
	mdl(func(m *mcall) {
		l := m.loc(1)
		f := m.st.read(l)
		d := m.st.read(m.loc(2)).S + ".out"
		p := m.args[0].(TV).T
		m.e.checkWrite(m.st, m.fr, l, m.pos)
		err := m.e.specCall("yaml_replace_err", "Any", p, f, tRaw(d, Str))
		m.e.write(m.st, l, m.e.specCall("yaml_replace", "T_YFile", p, f, tRaw(d, Str)))
		m.ret(TV{err})
	}, "github.com/goccy/go-yaml.(Path).ReplaceWithReader")
	mdl(func(m *mcall) {
		b := m.term(0)
		err := m.e.specCall("yaml_file_err", "Any", b)
		m.e.fork(m.st, tEq(err, tNil), func(st *State, ok bool) {
			m2 := *m
			m2.st = st
			if ok {
				m2.ret(m2.newPtr(m.e.specCall("yaml_file", "T_YFile", b), "yamlfile"), nilErr)
			} else {
				m2.ret(NilV{}, TV{err})
			}
		})
	}, "github.com/goccy/go-yaml/parser.ParseBytes")
	mdl(decode("yaml_Unmarshal"), "github.com/goccy/go-yaml.Unmarshal")
	mdl(decode("json_Unmarshal"), "encoding/json.Unmarshal")
	mdl(func(m *mcall) {
		a := m.term(0)
		o := m.term(1)
		m.ret(m.newSl(m.e.specCall("yaml_Marshal_r0", Str, a, o), "marshalled"), TV{m.e.specCall("yaml_Marshal_r1", "Any", a, o)})
	}, "github.com/goccy/go-yaml.MarshalWithOptions")
	mdl(func(m *mcall) { d := m.e.bind(m.st, "fmt", m.format(1, 2)); m.emit(0, d); m.ret(TV{tLen(d)}, nilErr) }, "fmt.Fprintf")
	mdl(func(m *mcall) { m.ret(TV{tApp("Any::E", "Any", m.format(0, 1))}) }, "fmt.Errorf")
	mdl(func(m *mcall) { m.ret(TV{m.sprint(0, false)}) }, "fmt.Sprint")
	mdl(func(m *mcall) { m.ret(TV{m.sprint(0, true)}) }, "fmt.Sprintln")
	mdl(func(m *mcall) { d := m.sprint(1, false); m.emit(0, d); m.ret(TV{tLen(d)}, nilErr) }, "fmt.Fprint")
	mdl(func(m *mcall) { d := m.sprint(1, true); m.emit(0, d); m.ret(TV{tLen(d)}, nilErr) }, "fmt.Fprintln")
	mdl(func(m *mcall) {
		d := m.sprint(0, true)
		m.e.setGhost(m.st, "stdout", tCat(m.st.ghost["stdout"], d))
		m.ret(TV{tLen(d)}, nilErr)
	}, "fmt.Println")
	mdl(func(m *mcall) {
		d := m.sprint(0, false)
		m.e.setGhost(m.st, "stdout", tCat(m.st.ghost["stdout"], d))
		m.ret(TV{tLen(d)}, nilErr)
	}, "fmt.Print")
	mdl(func(m *mcall) {
		d := m.format(0, 1)
		m.e.setGhost(m.st, "stdout", tCat(m.st.ghost["stdout"], d))
		m.ret(TV{tLen(d)}, nilErr)
	}, "fmt.Printf")
	mdl(func(m *mcall) { m.ret(TV{tApp("itoa", Str, m.term(0))}) }, "strconv.Itoa")

	// --- errors
	mdl(func(m *mcall) { m.ret(TV{tApp("Any::E", "Any", m.term(0))}) }, "errors.New")
	mdl(func(m *mcall) { m.ret(TV{m.e.bindBool(m.st, tEq(m.term(0), m.term(1)))}) }, "errors.Is")
	mdl(func(m *mcall) { m.ret(TV{anyFmt(m.e, m.e.toAny(m.st, m.args[0], nil), 'v')}) }, "invoke .error.Error", "invoke error.Error")

	// --- bytes / strings with a direct meaning
	mdl(func(m *mcall) { m.ret(TV{tEq(m.term(0), m.term(1))}) }, "bytes.Equal")

	// --- files
	mdl(func(m *mcall) {
		e := m.e
		e.needLock(m.st, m.fr, "fs", m.pos)
		fs, p := m.st.ghost["fs"], m.term(0)
		p = e.bind(m.st, "path", p)
		e.fork(m.st, tMapHas(fs, p), func(st *State, v bool) {
			m2 := *m
			m2.st = st
			if v {
				m2.ret(m2.newSl(tMapGet(fs, p), "data"), nilErr)
			} else {
				m2.ret(NilV{}, m2.osErr())
			}
		})
	}, "os.ReadFile")
	mdl(func(m *mcall) {
		e := m.e
		ok := e.fresh("mkdir_ok", "bool")
		e.fork(m.st, ok, func(st *State, v bool) {
			m2 := *m
			m2.st = st
			if v {
				m2.ret(nilErr)
			} else {
				m2.ret(m2.osErr())
			}
		})
	}, "os.MkdirAll")
	mdl(func(m *mcall) {
		e := m.e
		e.needLock(m.st, m.fr, "fs", m.pos)
		p := e.bind(m.st, "path", m.term(0))
		fl := m.term(1).view()
		if fl.Op != "int" {
			panic(unsupported("OpenFile with unknown flags"))
		}
		const oAPPEND, oCREATE, oEXCL, oTRUNC = 0x400, 0x40, 0x80, 0x200
		fs := m.st.ghost["fs"]
		fail := func(st *State) {
			m2 := *m
			m2.st = st
			m2.ret(NilV{}, m2.osErr())
		}
		open := func(st *State, exists bool) {
			m2 := *m
			m2.st = st
			fs := st.ghost["fs"]
			if !exists {
				e.setGhost(st, "fs", tMapIns(fs, p, tLit("")))
				e.setGhost(st, "wcount", tArith("+", st.ghost["wcount"], tInt(1)))
			} else if fl.I&oTRUNC != 0 {
				e.setGhost(st, "fs", tMapIns(fs, p, tLit("")))
				e.setGhost(st, "wcount", tArith("+", st.ghost["wcount"], tInt(1)))
			}
			if fl.I&3 == 0 {
				// read only: writes would fail
			}
			m2.ret(m2.newPtr(tStruct(structs["T_File"], p, tInt(0), tBool(fl.I&oAPPEND != 0)), "file"), nilErr)
		}
		ok := e.fresh("open_ok", "bool")
		e.fork(m.st, tMapHas(fs, p), func(st *State, has bool) {
			e.fork(st, ok, func(st2 *State, v bool) {
				if !v || (!has && fl.I&oCREATE == 0) || (has && fl.I&oEXCL != 0) {
					fail(st2)
					return
				}
				open(st2, has)
			})
		})
	}, "os.OpenFile")
	mdl(func(m *mcall) {
		e := m.e
		e.needLock(m.st, m.fr, "fs", m.pos)
		p, d := e.bind(m.st, "path", m.term(0)), m.term(1)
		ok := e.fresh("write_ok", "bool")
		e.fork(m.st, ok, func(st *State, v bool) {
			m2 := *m
			m2.st = st
			if v {
				e.setGhost(st, "fs", tMapIns(st.ghost["fs"], p, d))
				e.setGhost(st, "wcount", tArith("+", st.ghost["wcount"], tInt(1)))
				m2.ret(nilErr)
			} else {
				m2.ret(m2.osErr())
			}
		})
	}, "os.WriteFile")
	mdl(func(m *mcall) {
		e := m.e
		p := e.bind(m.st, "path", m.term(0))
		ok := e.fresh("remove_ok", "bool")
		e.fork(m.st, ok, func(st *State, v bool) {
			m2 := *m
			m2.st = st
			if v {
				e.setGhost(st, "fs", tMapDel(st.ghost["fs"], p))
				e.setGhost(st, "wcount", tArith("+", st.ghost["wcount"], tInt(1)))
				m2.ret(nilErr)
			} else {
				m2.ret(m2.osErr())
			}
		})
	}, "os.Remove")
	mdl(func(m *mcall) { m.ret(nilErr) }, "os.(File).Close")
	mdl(func(m *mcall) { d := m.term(1); m.emit(0, d); m.ret(TV{tLen(d)}, nilErr) }, "os.(File).Write", "os.(File).WriteString")
	mdl(func(m *mcall) {
		e, st := m.e, m.st
		e.needLock(st, m.fr, "fs", m.pos)
		l := m.loc(0)
		p := tField(st.read(l), "path")
		n := m.term(1)
		cur := tMapGet(st.ghost["fs"], p)
		var nw *Term
		if v := n.view(); v.Op == "int" && v.I == 0 {
			nw = tLit("")
		} else {
			nw = e.specCall("truncate_to", Str, cur, n)
		}
		e.setGhost(st, "fs", tMapIns(st.ghost["fs"], p, nw))
		e.setGhost(st, "wcount", tArith("+", st.ghost["wcount"], tInt(1)))
		m.ret(nilErr)
	}, "os.(File).Truncate")
	mdl(func(m *mcall) {
		e, st := m.e, m.st
		l := m.loc(0)
		o := st.read(l)
		wh := m.term(2).view()
		off := m.term(1)
		var np *Term
		switch {
		case wh.Op == "int" && wh.I == 0:
			np = off
		case wh.Op == "int" && wh.I == 1:
			np = tArith("+", tField(o, "pos"), off)
		case wh.Op == "int" && wh.I == 2:
			np = tArith("+", tLen(tMapGet(st.ghost["fs"], tField(o, "path"))), off)
		default:
			panic(unsupported("Seek whence"))
		}
		e.write(st, l.ext(PE{k: 'f', f: "pos"}), np)
		m.ret(TV{np}, nilErr)
	}, "os.(File).Seek")
	mdl(func(m *mcall) { m.ret(TV{m.e.fresh("fileinfo", "Any")}, TV{m.e.fresh("staterr", "Any")}) }, "os.(File).Stat")
	mdl(func(m *mcall) { m.ret(TV{m.e.fresh("size", "int")}) }, "invoke fs.FileInfo.Size", "invoke os.FileInfo.Size")
	mdl(func(m *mcall) {
		p := m.term(0)
		d := tApp("dir_entries", "Seq<T_DirEnt>", m.st.ghost["fs"], p)
		m.ret(m.newSl(m.e.bind(m.st, "ents", d), "ents"), TV{m.e.fresh("readdirerr", "Any")})
	}, "os.ReadDir")
	mdl(func(m *mcall) { m.ret(TV{tField(m.direct(0, "T_DirEnt"), "name")}) }, "invoke fs.DirEntry.Name")
	mdl(func(m *mcall) { m.ret(TV{tField(m.direct(0, "T_DirEnt"), "isdir")}) }, "invoke fs.DirEntry.IsDir")
	mdl(func(m *mcall) { m.ret(TV{m.e.specCall("os_Getenv", Str, m.term(0))}) }, "os.Getenv")
	mdl(func(m *mcall) {
		m.ret(TV{m.e.specCall("os_Getenv", Str, m.term(0))}, TV{m.e.uninterpApp("os_EnvSet", "bool", m.term(0))})
	}, "os.LookupEnv")
	mdl(func(m *mcall) { m.ret(TV{tVar("os_cwd()", Str)}, nilErr) }, "os.Getwd")

	// --- the test object
	mdl(func(m *mcall) { m.ret() }, "invoke snaps.testingT.Helper")
	mdl(func(m *mcall) { m.ret(TV{tField(m.obj(0), "name")}) }, "invoke snaps.testingT.Name")
	ev := func(kind string) func(m *mcall) {
		return func(m *mcall) {
			var a *Term
			if len(m.args) < 2 {
				a = tEmpty("Seq<Any>")
			} else {
				last := len(m.args) - 1
				if _, ok := m.args[last].(NilV); ok {
					a = tEmpty("Seq<Any>")
				} else {
					a = m.term(last)
				}
			}
			m.e.setGhost(m.st, "tlog", tPush(m.st.ghost["tlog"], tApp("TEv::"+kind, "TEv", a)))
			m.ret()
		}
	}
	mdl(ev("Error"), "invoke snaps.testingT.Error")
	mdl(ev("Log"), "invoke snaps.testingT.Log")
	mdl(ev("Skip"), "invoke snaps.testingT.Skip", "invoke snaps.testingT.Skipf", "invoke snaps.testingT.SkipNow")
	mdl(func(m *mcall) {
		c, ok := m.args[1].(Clo)
		if !ok {
			panic(unsupported("Cleanup with an unknown function"))
		}
		e := m.e
		s2 := m.st.clone()
		s2.ghost["rlog"] = tEmpty("Seq<Reset>")
		before := s2.clone()
		cnt := 0
		var recorded *Term
		var fin *State
		e.runFunc(s2, c.fn, nil, c.free, m.fr, func(s3 *State, _ []Val) {
			cnt++
			recorded = s3.ghost["rlog"]
			fin = s3
		})
		if cnt != 1 {
			panic(unsupported("Cleanup function with several paths"))
		}
		for _, g := range sortedKeys(before.ghost) {
			if g != "rlog" && fin.ghost[g].S != before.ghost[g].S {
				e.oblige(m.st, m.fr, "cleanup-effects:"+g, []string{"C03"}, tFalse, "the cleanup function has no other effect than resetting the registry", m.pos)
			}
		}
		// the obligations of the closure run are kept
		m.st.stmts = append(m.st.stmts, fin.stmts[len(before.stmts):]...)
		e.setGhost(m.st, "clog", tPush(m.st.ghost["clog"], recorded))
		m.ret()
	}, "invoke snaps.testingT.Cleanup")

	// --- flags
	mdl(func(m *mcall) {
		m.ret(m.newPtr(tStruct(structs["T_Flag"], tApp("flag_value", Str, m.term(0))), "flag"))
	}, "flag.Lookup")
	mdl(func(m *mcall) { m.ret(TV{m.e.toTerm(m.st, m.args[0], types.Typ[types.String])}) }, "invoke flag.Value.String")

	// --- runtime
	mdl(func(m *mcall) {
		i := m.term(0)
		s := m.st.ghost["stack"]
		if d := m.e.depth(m.fr); d > 0 {
			// the frames of inlined functions come first
			m.e.safe(m.st, m.fr, "caller-depth", tCmp(">=", i, tInt(int64(d))), m.pos)
			i = tArith("-", i, tInt(int64(d)))
		}
		ok := tAnd(tCmp("<=", tInt(0), i), tCmp("<", i, tLen(s)))
		m.e.fork(m.st, ok, func(st *State, v bool) {
			if v {
				m.k(st, []Val{TV{i}, TV{tField(tIdx(s, i), "file")}, TV{m.e.fresh("line", "int")}, TV{tTrue}})
			} else {
				m.k(st, []Val{TV{tInt(0)}, TV{tLit("")}, TV{tInt(0)}, TV{tFalse}})
			}
		})
	}, "runtime.Caller")
	mdl(func(m *mcall) {
		t := tApp("func_for_pc", "Opq", m.term(0))
		m.e.assume(m.st, "func-for-pc", tNot(tEq(t, zero("Opq"))))
		m.ret(TV{t})
	}, "runtime.FuncForPC")
	mdl(func(m *mcall) {
		t := m.args[0].(TV).T.view()
		if t.Op == "app" && t.Name == "func_for_pc" {
			m.ret(TV{tField(tIdx(m.st.ghost["stack"], t.A[0]), "fun")})
			return
		}
		m.ret(TV{m.e.uninterpApp("runtime_Func_Name", Str, t)})
	}, "runtime.(Func).Name")
	mdl(func(m *mcall) { m.ret(TV{tVar("runtime_goroot()", Str)}) }, "runtime.GOROOT")

	// --- sorting
	mdl(func(m *mcall) {
		s := m.args[0].(Sl)
		f := m.e.specFnAny(m.st, m.args[1])
		cur := m.st.read(s.L)
		m.e.checkWrite(m.st, m.fr, s.L, m.pos)
		m.e.write(m.st, s.L, m.e.specCall("stable_sorted_"+sanitize(elemSort(cur.Sort)), cur.Sort, cur, f))
		m.ret()
	}, "slices.SortStableFunc")
	mdl(func(m *mcall) {
		f := m.e.specFnAny(m.st, m.args[1])
		s := m.e.toTerm(m.st, m.args[0], m.sig().Params().At(0).Type())
		m.ret(TV{m.e.specCall("is_sorted_"+sanitize(elemSort(s.Sort)), "bool", s, f)})
	}, "slices.IsSortedFunc")
}

func (m *mcall) direct(i int, s string) *Term {
	switch x := m.args[i].(type) {
	case TV:
		return x.T
	case Ptr:
		return m.st.read(x.L)
	case IfaceV:
		if tv, ok := x.v.(TV); ok {
			return tv.T
		}
	}
	panic(unsupported("direct " + s))
}

func (e *Exec) bindBool(st *State, t *Term) *Term { return t }

// specFnAny: a comparison function as a spec closure
func (e *Exec) specFnAny(st *State, v Val) *Term {
	switch x := v.(type) {
	case TV:
		return x.T
	case Clo:
		sig := x.fn.Signature
		s := sortOf(sig)
		return e.specFn(st, x, s)
	}
	panic(unsupported("comparison function"))
}

// lambda turns an effect free single-expression closure into a spec closure by symbolic execution
func (e *Exec) lambda(st *State, c Clo, s string) *Term {
	sig := c.fn.Signature
	tr := transformed(sig)
	if sig.Results().Len() != 1 && tr == nil {
		panic(unsupported("closure with several results"))
	}
	if tr != nil {
		// the change is the one made with the captured variables as they are now
		for _, v := range c.free {
			if p, ok := v.(Ptr); ok {
				e.freeze(st, p.L)
			}
		}
	}
	var args []Val
	var ps []string
	s2 := st.clone()
	n0 := len(s2.stmts)
	for i := 0; i < sig.Params().Len(); i++ {
		e.nvar++
		n := fmt.Sprintf("la_%d", e.nvar)
		t := tVar(n, sortOf(sig.Params().At(i).Type()))
		if tr != nil {
			t.Sort = sortOf(tr)
			o := e.newObj(s2, t, n)
			args = append(args, Ptr{L: Loc{obj: o}, GT: sig.Params().At(i).Type()})
			ps = append(ps, n+": "+t.Sort)
			continue
		}
		ps = append(ps, n+": "+t.Sort)
		args = append(args, e.fromTerm(s2, t, sig.Params().At(i).Type(), n))
	}
	type res struct {
		cond []*Term
		val  *Term
	}
	var rs []res
	e.runFunc(s2, c.fn, args, c.free, nil, func(s3 *State, r []Val) {
		re := res{}
		for _, x := range s3.stmts[n0:] {
			switch x.kind {
			case 'a':
				if x.name == "if" || x.name == "else" {
					re.cond = append(re.cond, x.t)
				}
			case 'l':
				panic(unsupported("closure needs a binding"))
			case 'o':
				panic(unsupported("closure with an obligation"))
			}
		}
		if tr != nil {
			re.val = s3.read(args[0].(Ptr).L)
		} else {
			re.val = e.toTerm(s3, r[0], sig.Results().At(0).Type())
		}
		for o, v := range s3.heap {
			if w := st.heap[o]; w != nil && w.S != v.S {
				panic(unsupported("closure with effects"))
			}
		}
		for g, v := range s3.ghost {
			if st.ghost[g].S != v.S {
				panic(unsupported("closure with effects"))
			}
		}
		rs = append(rs, re)
	})
	t := rs[len(rs)-1].val
	for i := len(rs) - 2; i >= 0; i-- {
		c := tTrue
		for _, x := range rs[i].cond {
			c = tAnd(c, x)
		}
		t = tIte(c, rs[i].val, t)
	}
	return tRaw("|"+strings.Join(ps, ", ")+"| "+t.S, s)
}

func (m *mcall) sprint(i int, ln bool) *Term {
	var a *Term
	if _, ok := m.args[i].(NilV); ok {
		a = tEmpty("Seq<Any>")
	} else {
		a = m.term(i)
	}
	els, ok := seqElems(a)
	if !ok || (len(els) != 1) {
		if ok && len(els) == 0 {
			if ln {
				return tLit("\n")
			}
			return tLit("")
		}
		n := "fmt_Sprint"
		if ln {
			n += "ln"
		}
		return m.e.uninterpApp(n, Str, a)
	}
	r := anyFmt(m.e, els[0], 'v')
	if ln {
		r = tCat(r, tLit("\n"))
	}
	return r
}

// invalidate: slices returned by Scanner.Bytes are overwritten by the next Scan
func (e *Exec) invalidate(st *State, scan int) {
	for o, c := range st.heap {
		if m := e.metas[o]; m != nil && m.scanObj == scan && scan != 0 {
			if c.view().Op == "lit" {
				continue
			}
			st.heap[o] = e.fresh("stale", c.Sort)
		}
	}
}
