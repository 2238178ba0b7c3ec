package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

type Clause struct {
	Name  string
	Props []string
	Text  string
	Line  string // file:line
	// the clause names its properties itself
	Explicit bool
}

type LoopSpec struct {
	Key   string
	Invs  []*Clause
	Hints []string // proof code before checking the invariant at the back edge
	Body  []string // proof code after assuming the invariant
	Init  []string // proof code before checking on entry
	Exit  []string
	Roles map[string]string // role name -> kind ("int", ...)
	used  bool
}

type Contract struct {
	Func       string // short: pkg.Name or pkg.(T).Name
	Params     []string
	Results    []string
	Props      []string
	Requires   []*Clause
	Ensures    []*Clause
	Modifies   []string
	Ghost      []string // name = expr executed at return
	Returns    string   // functional definition of the result
	Hints      []string // before ensures
	Entry      []string // proof code at entry
	Loops      map[string]*LoopSpec
	Nullable   map[string]bool
	Shared     bool
	NeedLock   map[string]string // ghost -> lock
	Extern     bool
	Single     bool            // runs single threaded: no lock obligations
	Writes     map[string]bool // params this function may write through
	SpecFn     string
	Rely       []*Clause
	Inline     bool
	Init       bool
	Opaque     bool // trusted: not verified
	Reason     string
	Acquires   []string
	FrameProps []string
	Aliases    map[string][]string // result -> what its elements may be shared with
	Line       string
	Claim      bool // states what no contract of its callers states
	Local      bool // its clauses matter to the properties it names only
	Support    bool // verified for its frame only, as a callee
}

type LockDecl struct {
	Lock   string
	Guards []string
	Invs   []*Clause // over $o, the object the lock protects
}

type Contracts struct {
	M           map[string]*Contract
	Order       []string
	Globals     map[string]*Clause // pkg.name -> constraint text over $v
	GlobalProps []*Clause
	Locks       []*LockDecl
	Assume      []string
}

var kwRe = regexp.MustCompile(`^(func|extern|opaque|props|requires|ensures|modifies|ghost|returns|hint|entry|loop|inv|nullable|shared|needlock|single|specfn|writes|global|lock|guards|rely|roles|body|init|exit|inline|reason|acquires|frameprops|aliases|local|claim|end)\b(.*)$`)

// macro NAME(ARG): TEXT    used as @NAME(X)
var macroRe = regexp.MustCompile(`^macro (\w+)\((\w+)\): (.*)$`)
var macroUse = regexp.MustCompile(`@(\w+)\(([^()@]*)\)`)
var macros = map[string][2]string{}

func expand(l string) string {
	for macroUse.MatchString(l) {
		l = macroUse.ReplaceAllStringFunc(l, func(s string) string {
			m := macroUse.FindStringSubmatch(s)
			d, ok := macros[m[1]]
			if !ok {
				panic("unknown macro " + s)
			}
			return regexp.MustCompile(`\b`+d[0]+`\b`).ReplaceAllLiteralString(d[1], m[2])
		})
	}
	return l
}

func parseContracts(dir string) (*Contracts, error) {
	cs := &Contracts{M: map[string]*Contract{}, Globals: map[string]*Clause{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(files)
	for _, f := range files {
		if err := parseFile(cs, f); err != nil {
			return nil, err
		}
	}
	return cs, nil
}

func parseFile(cs *Contracts, file string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	type item struct {
		kw, rest string
		line     int
	}
	var items []item
	for i, l := range strings.Split(string(b), "\n") {
		if m := macroRe.FindStringSubmatch(l); m != nil {
			macros[m[1]] = [2]string{m[2], m[3]}
			continue
		}
		l = expand(l)
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "#") || t == "" {
			continue
		}
		ind := len(l) - len(strings.TrimLeft(l, " \t"))
		m := kwRe.FindStringSubmatch(t)
		if m != nil && ind <= 4 {
			items = append(items, item{m[1], m[2], i + 1})
			continue
		}
		if len(items) == 0 {
			return fmt.Errorf("%s:%d: text outside clause", file, i+1)
		}
		items[len(items)-1].rest += "\n" + l
	}
	var c *Contract
	var lp *LoopSpec
	var lk *LockDecl
	base := filepath.Base(file)
	clause := func(it item, deflt []string) *Clause {
		r := strings.TrimSpace(it.rest)
		cl := &Clause{Line: fmt.Sprintf("%s:%d", base, it.line), Props: deflt}
		if strings.HasPrefix(r, "[") {
			j := strings.Index(r, "]")
			cl.Props = strings.Fields(r[1:j])
			cl.Explicit = true
			r = r[j+1:]
		}
		r = strings.TrimSpace(r)
		if m := regexp.MustCompile(`^([A-Za-z0-9_.-]+):(?:[^:]|$)`).FindStringSubmatch(r); m != nil {
			cl.Name = m[1]
			r = strings.TrimSpace(r[len(m[1])+1:])
		}
		cl.Text = r
		return cl
	}
	for _, it := range items {
		rest := strings.TrimSpace(it.rest)
		switch it.kw {
		case "func", "extern", "opaque":
			// name(params) -> (results)
			m := regexp.MustCompile(`^(\S+?)\(([^)]*)\)(?:\s*->\s*\(?([^)]*)\)?)?$`).FindStringSubmatch(rest)
			if strings.Contains(rest, ").") { // method: pkg.(T).Name(params)
				m = regexp.MustCompile(`^(\S*?\(\S*?\)\.\S+?)\(([^)]*)\)(?:\s*->\s*\(?([^)]*)\)?)?$`).FindStringSubmatch(rest)
			}
			if m == nil {
				return fmt.Errorf("%s:%d: bad func header %q", file, it.line, rest)
			}
			c = &Contract{Func: m[1], Loops: map[string]*LoopSpec{}, Nullable: map[string]bool{}, NeedLock: map[string]string{}, Writes: map[string]bool{}, Line: fmt.Sprintf("%s:%d", base, it.line)}
			c.Params = splitList(m[2])
			c.Results = splitList(m[3])
			c.Extern = it.kw == "extern"
			c.Opaque = it.kw == "opaque"
			if cs.M[c.Func] != nil {
				return fmt.Errorf("%s:%d: duplicate contract %s", file, it.line, c.Func)
			}
			cs.M[c.Func] = c
			cs.Order = append(cs.Order, c.Func)
			lp, lk = nil, nil
		case "props":
			c.Props = strings.Fields(strings.TrimPrefix(rest, ":"))
		case "requires":
			c.Requires = append(c.Requires, clause(it, c.Props))
		case "claim":
			c.Claim = true
		case "local":
			c.Local = true
		case "ensures":
			c.Ensures = append(c.Ensures, clause(it, c.Props))
		case "modifies":
			c.Modifies = append(c.Modifies, splitList(strings.TrimPrefix(rest, ":"))...)
		case "ghost":
			c.Ghost = append(c.Ghost, strings.TrimPrefix(rest, ":"))
		case "returns":
			c.Returns = strings.TrimSpace(strings.TrimPrefix(rest, ":"))
		case "hint":
			h := strings.TrimPrefix(rest, ":")
			if lp != nil {
				lp.Hints = append(lp.Hints, h)
			} else {
				c.Hints = append(c.Hints, h)
			}
		case "body":
			lp.Body = append(lp.Body, strings.TrimPrefix(rest, ":"))
		case "init":
			lp.Init = append(lp.Init, strings.TrimPrefix(rest, ":"))
		case "exit":
			lp.Exit = append(lp.Exit, strings.TrimPrefix(rest, ":"))
		case "entry":
			c.Entry = append(c.Entry, strings.TrimPrefix(rest, ":"))
		case "loop":
			key := strings.TrimSuffix(strings.TrimSpace(rest), ":")
			lp = &LoopSpec{Key: key, Roles: map[string]string{}}
			c.Loops[key] = lp
		case "roles":
			for _, r := range splitList(strings.TrimPrefix(rest, ":")) {
				p := strings.SplitN(r, "=", 2)
				lp.Roles[strings.TrimSpace(p[0])] = strings.TrimSpace(p[1])
			}
		case "inv":
			if lk != nil {
				lk.Invs = append(lk.Invs, clause(it, nil))
			} else {
				lp.Invs = append(lp.Invs, clause(it, c.Props))
			}
		case "acquires":
			c.Acquires = append(c.Acquires, splitList(strings.TrimPrefix(rest, ":"))...)
		case "aliases":
			p := strings.SplitN(rest, ":", 2)
			if c.Aliases == nil {
				c.Aliases = map[string][]string{}
			}
			q := strings.SplitN(p[len(p)-1], "=", 2)
			c.Aliases[strings.TrimSpace(q[0])] = splitList(q[1])
		case "frameprops":
			c.FrameProps = strings.Fields(strings.TrimPrefix(rest, ":"))
		case "nullable":
			for _, n := range splitList(strings.TrimPrefix(rest, ":")) {
				c.Nullable[n] = true
			}
		case "shared":
			c.Shared = true
		case "single":
			c.Single = true
		case "inline":
			c.Inline = true
		case "reason":
			c.Reason = strings.TrimPrefix(rest, ":")
		case "end":
			lp = nil
		case "needlock":
			p := strings.Fields(strings.TrimPrefix(rest, ":"))
			c.NeedLock[p[0]] = p[1]
		case "specfn":
			c.SpecFn = strings.TrimPrefix(rest, ":")
		case "writes":
			for _, n := range splitList(strings.TrimPrefix(rest, ":")) {
				c.Writes[n] = true
			}
		case "global":
			// global pkg_name [props]: text over $v
			gm := regexp.MustCompile(`(?s)^\s*(\w+)\s*(?:\[([^\]]*)\])?\s*:(.*)$`).FindStringSubmatch(it.rest)
			if gm == nil {
				return fmt.Errorf("%s:%d: bad global clause", file, it.line)
			}
			cl := &Clause{Name: gm[1], Props: strings.Fields(gm[2]), Text: strings.TrimSpace(gm[3]), Line: fmt.Sprintf("%s:%d", base, it.line)}
			p := []string{cl.Name, cl.Text}
			cs.GlobalProps = append(cs.GlobalProps, cl)
			cs.Globals[strings.TrimSpace(p[0])] = &Clause{Name: strings.TrimSpace(p[0]), Props: cl.Props, Text: strings.TrimSpace(p[1]), Line: fmt.Sprintf("%s:%d", base, it.line)}
		case "lock":
			lk = &LockDecl{Lock: strings.TrimSpace(strings.TrimPrefix(rest, ":"))}
			cs.Locks = append(cs.Locks, lk)
		case "guards":
			lk.Guards = splitList(strings.TrimPrefix(rest, ":"))
		case "rely":
			c.Rely = append(c.Rely, clause(it, c.Props))
		}
	}
	return nil
}

func splitList(s string) []string {
	var out []string
	for _, p := range strings.Split(s, ",") {
		p = strings.TrimSpace(p)
		if p != "" {
			out = append(out, p)
		}
	}
	return out
}

var sliceProp string

// sliceTo keeps the clauses a property is tagged with: its proof rests on these alone
func sliceTo(cs *Contracts, prop string) {
	sliceProp = prop
	if prop == "" {
		return
	}
	for n, cl := range cs.Globals {
		if !has(cl.Props, prop) && !has(cl.Props, "*") {
			delete(cs.Globals, n)
		}
	}
	for _, c := range cs.M {
		local := c.Local && !c.concerns(prop)
		keep := func(cl []*Clause) []*Clause {
			var r []*Clause
			for _, x := range cl {
				if has(x.Props, prop) || (x.Explicit && has(x.Props, "*")) || (!x.Explicit && !local) {
					r = append(r, x)
				}
			}
			return r
		}
		c.Ensures = keep(c.Ensures)
		if local {
			c.Returns = ""
			c.Hints, c.Entry = nil, nil
		}
		for _, l := range c.Loops {
			l.Invs = keep(l.Invs)
			if local {
				l.Hints, l.Body, l.Init, l.Exit = nil, nil, nil, nil
			}
		}
	}
}

func sliceProps(ps []string) []string {
	if sliceProp == "" || has(ps, sliceProp) {
		return ps
	}
	return append([]string{sliceProp}, ps...)
}

var supportKinds = regexp.MustCompile(`^(frame|result-not-nil|aliases|opaque-store|unlock-held|lock|held|needlock)`)

func (c *Contract) obligProps(cs *Contracts, name string, ps []string) []string {
	if strings.HasPrefix(name, "frame:caller-bytes") {
		return ps
	}
	if c.Support && !supportKinds.MatchString(name) {
		// a precondition of a function the property is about
		p := strings.Split(name, ":")
		if p[0] != "call" || len(p) < 2 {
			return ps
		}
		for n, d := range cs.M {
			if shortF(n) == p[1] && d.concerns(sliceProp) {
				return sliceProps(ps)
			}
		}
		return ps
	}
	return sliceProps(ps)
}

func (cs *Contracts) lockHasInv(l string) bool {
	for _, d := range cs.Locks {
		if d.Lock == l && len(d.Invs) > 0 {
			return true
		}
	}
	return false
}

// cross lists the clauses taken from functions that only support this property: the checks of the
// properties they name discharge them
func (c *Contract) cross() []string {
	var r []string
	if c.Support {
		for _, x := range c.Ensures {
			r = append(r, fmt.Sprintf("%s ensures %s (discharged by the checks of %s)", c.Func, x.Name, strings.TrimSpace(strings.ReplaceAll(strings.Join(x.Props, " "), "*", ""))))
		}
	}
	return r
}

// modifiesVar tells whether the contract lists the variable, or a part of it, as modified.
func (c *Contract) modifiesVar(n string) bool {
	for _, m := range c.Modifies {
		if strings.SplitN(m, ".", 2)[0] == n {
			return true
		}
	}
	return false
}
