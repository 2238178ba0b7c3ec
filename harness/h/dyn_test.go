// Interprets scenarios against the real go-snaps: every test, subtest, -run, -count, -parallel and
// Cleanup is the real thing, only what is reported to the test is recorded instead of failing it.
package h

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"reflect"
	"strings"
	"sync"
	"testing"
	"unsafe"

	"github.com/gkampitakis/go-snaps/match"
	"github.com/gkampitakis/go-snaps/snaps"
)

type Cfg struct {
	Filename *string
	Dir      *string
	Ext      *string
	Update   *bool
	JSON     *struct {
		Width    int
		Indent   string
		SortKeys bool
	}
}

type M struct {
	K     string // any, type, custom
	T     string
	Paths []string
	Path  string
	Ph    any
	SetPh bool
	EOM   *bool
	Ret   any
	Err   string
	Sel   string
}

type Step struct {
	Op     string
	Cfg    *Cfg
	Shared string // id of a config shared by steps
	Vals   []string
	In     string // str, bytes, val
	Val    any
	M      []M
	Name   string
	Steps  []Step
	Par    bool
	Path   string
	N      int
	Text   string
	Style  string // how the calling frames look
}

type Test struct {
	Name  string
	Par   bool
	Steps []Step
}

type Scenario struct {
	Tests []Test
	Clean *struct {
		Sort bool
		N    int
		None bool
	}
	Shared map[string]Cfg
	Dir    string
}

type Rec struct {
	Test    string
	Step    int
	Op      string
	Errors  []string
	Logs    []string
	Skips   int
	Mutated bool
	Panic   string
	Cfg     string // config before/after differ
	Seen    []string
}

type Result struct {
	Recs   []*Rec
	Code   int
	Stdout string
}

var (
	sc     Scenario
	mu     sync.Mutex
	recs   []*Rec
	shared = map[string]*snaps.Config{}
)

type recT struct {
	*testing.T
	r *Rec
}

func (t *recT) Error(a ...any) { mu.Lock(); t.r.Errors = append(t.r.Errors, lat(fmt.Sprint(a...))); mu.Unlock() }
func (t *recT) Log(a ...any)   { mu.Lock(); t.r.Logs = append(t.r.Logs, lat(fmt.Sprint(a...))); mu.Unlock() }
func (t *recT) Skip(a ...any)  { mu.Lock(); t.r.Skips++; mu.Unlock(); t.T.SkipNow() }
func (t *recT) Skipf(f string, a ...any) {
	mu.Lock()
	t.r.Skips++
	mu.Unlock()
	t.T.SkipNow()
}
func (t *recT) SkipNow() { mu.Lock(); t.r.Skips++; mu.Unlock(); t.T.SkipNow() }

// bytes travel as latin-1 code points
func lat(s string) string {
	r := make([]rune, len(s))
	for i := 0; i < len(s); i++ {
		r[i] = rune(s[i])
	}
	return string(r)
}
func unlat(s string) string {
	b := make([]byte, 0, len(s))
	for _, r := range s {
		b = append(b, byte(r))
	}
	return string(b)
}

func (c *Cfg) build() *snaps.Config {
	var o []func(*snaps.Config)
	if sc.Dir != "" && c.Dir == nil {
		o = append(o, snaps.Dir(sc.Dir))
	}
	if c.Filename != nil {
		o = append(o, snaps.Filename(unlat(*c.Filename)))
	}
	if c.Dir != nil {
		o = append(o, snaps.Dir(unlat(*c.Dir)))
	}
	if c.Ext != nil {
		o = append(o, snaps.Ext(unlat(*c.Ext)))
	}
	if c.Update != nil {
		o = append(o, snaps.Update(*c.Update))
	}
	if c.JSON != nil {
		o = append(o, snaps.JSON(snaps.JSONConfig{Width: c.JSON.Width, Indent: c.JSON.Indent, SortKeys: c.JSON.SortKeys}))
	}
	return snaps.WithConfig(o...)
}

type target interface {
	JSON([]byte) ([]byte, []match.MatcherError)
}
type ytarget interface {
	YAML([]byte) ([]byte, []match.MatcherError)
}

func (m *M) build(r *Rec) any {
	switch m.K {
	case "any":
		a := match.Any(m.Paths...)
		if m.SetPh {
			a = a.Placeholder(norm(m.Ph))
		}
		if m.EOM != nil {
			a = a.ErrOnMissingPath(*m.EOM)
		}
		return a
	case "type":
		switch m.T {
		case "string":
			a := match.Type[string](m.Paths...)
			if m.EOM != nil {
				a = a.ErrOnMissingPath(*m.EOM)
			}
			return a
		case "float64":
			a := match.Type[float64](m.Paths...)
			if m.EOM != nil {
				a = a.ErrOnMissingPath(*m.EOM)
			}
			return a
		case "uint64":
			a := match.Type[uint64](m.Paths...)
			if m.EOM != nil {
				a = a.ErrOnMissingPath(*m.EOM)
			}
			return a
		case "bool":
			a := match.Type[bool](m.Paths...)
			if m.EOM != nil {
				a = a.ErrOnMissingPath(*m.EOM)
			}
			return a
		case "map":
			a := match.Type[map[string]any](m.Paths...)
			if m.EOM != nil {
				a = a.ErrOnMissingPath(*m.EOM)
			}
			return a
		case "anytype":
			a := match.Type[any](m.Paths...)
			if m.EOM != nil {
				a = a.ErrOnMissingPath(*m.EOM)
			}
			return a
		case "slice":
			a := match.Type[[]any](m.Paths...)
			if m.EOM != nil {
				a = a.ErrOnMissingPath(*m.EOM)
			}
			return a
		}
	case "custom":
		a := match.Custom(m.Path, func(v any) (any, error) {
			mu.Lock()
			r.Seen = append(r.Seen, fmt.Sprintf("%T:%v", v, v))
			mu.Unlock()
			if m.Err != "" {
				return nil, errors.New(m.Err)
			}
			return norm(m.Ret), nil
		})
		if m.EOM != nil {
			a = a.ErrOnMissingPath(*m.EOM)
		}
		return a
	}
	panic("matcher " + m.K)
}

type goVal struct {
	B string         `json:"b" yaml:"b"`
	A []int          `json:"a" yaml:"a"`
	M map[string]any `json:"m" yaml:"m"`
}

func runSteps(t *testing.T, steps []Step) {
	for i := range steps {
		s := &steps[i]
		switch s.Op {
		case "sub":
			t.Run(s.Name, func(t *testing.T) {
				if s.Par {
					t.Parallel()
				}
				runSteps(t, s.Steps)
			})
			continue
		case "chdir":
			if err := os.Chdir(s.Path); err != nil {
				panic(err)
			}
			continue
		case "realskip":
			t.SkipNow()
		case "cleanup":
			t.Cleanup(func() { runSteps(t, s.Steps) })
			continue
		case "go":
			var wg sync.WaitGroup
			for j := range s.Steps {
				wg.Add(1)
				go func() { defer wg.Done(); runSteps(t, s.Steps[j:j+1]) }()
			}
			wg.Wait()
			continue
		}
		n := s.N
		if n == 0 {
			n = 1
		}
		for j := 0; j < n; j++ {
			r := &Rec{Test: t.Name(), Step: i, Op: s.Op}
			mu.Lock()
			recs = append(recs, r)
			mu.Unlock()
			doStep(t, s, r)
		}
	}
}

func doStep(t *testing.T, s *Step, r *Rec) {
	rt := &recT{t, r}
	defer func() {
		if p := recover(); p != nil {
			r.Panic = fmt.Sprint(p)
		}
	}()
	var c *snaps.Config
	if s.Shared != "" {
		c = shared[s.Shared]
	} else if s.Cfg != nil {
		c = s.Cfg.build()
	} else if sc.Dir != "" {
		c = (&Cfg{}).build()
	}
	var before string
	if c != nil {
		before = dump(c)
		defer func() {
			if a := dump(c); a != before {
				mu.Lock()
				r.Cfg = before + " -> " + a
				mu.Unlock()
			}
		}()
	}
	var in any
	var buf, orig []byte
	switch s.In {
	case "str":
		in = unlat(s.Text)
	case "bytes":
		// capacity beyond the length: an append must not write there either
		orig = []byte(unlat(s.Text))
		full := append(append([]byte{}, orig...), "SENTINEL"...)
		buf = full[:len(orig)]
		in = buf
		defer func() {
			if string(full) != string(orig)+"SENTINEL" {
				r.Mutated = true
			}
		}()
	case "val":
		in = s.Val
	case "govals":
		in = goVal{B: unlat(s.Text), A: []int{3, 1, 2}, M: map[string]any{"z": 1, "a": "x", "k": []any{true, nil}}}
	case "bad":
		in = make(chan int)
	case "raw":
		in = json.RawMessage(unlat(s.Text))
	}
	if s.Style == "other" {
		callElsewhere(rt, s, c, in)
		return
	}
	callStyle(s.Style, func() {
		switch s.Op {
		case "snap":
			vals := make([]any, len(s.Vals))
			for i, v := range s.Vals {
				vals[i] = unlat(v)
			}
			if s.In != "" {
				vals = append(vals, in)
			}
			if c == nil {
				snaps.MatchSnapshot(rt, vals...)
			} else {
				c.MatchSnapshot(rt, vals...)
			}
		case "ssnap":
			var v any = in
			if s.In == "" {
				v = unlat(s.Vals[0])
			}
			if c == nil {
				snaps.MatchStandaloneSnapshot(rt, v)
			} else {
				c.MatchStandaloneSnapshot(rt, v)
			}
		case "json", "sjson":
			ms := []match.JSONMatcher{}
			for i := range s.M {
				ms = append(ms, s.M[i].build(r).(match.JSONMatcher))
			}
			switch {
			case s.Op == "json" && c == nil:
				snaps.MatchJSON(rt, in, ms...)
			case s.Op == "json":
				c.MatchJSON(rt, in, ms...)
			case c == nil:
				snaps.MatchStandaloneJSON(rt, in, ms...)
			default:
				c.MatchStandaloneJSON(rt, in, ms...)
			}
		case "yaml":
			ms := []match.YAMLMatcher{}
			for i := range s.M {
				ms = append(ms, s.M[i].build(r).(match.YAMLMatcher))
			}
			if c == nil {
				snaps.MatchYAML(rt, in, ms...)
			} else {
				c.MatchYAML(rt, in, ms...)
			}
		case "skip":
			snaps.Skip(rt, "x")
		case "skipf":
			snaps.Skipf(rt, "x %d", 1)
		case "skipnow":
			snaps.SkipNow(rt)
		default:
			panic("op " + s.Op)
		}
	})
}

func callStyle(style string, f func()) {
	switch style {
	case "":
		f()
	case "deep":
		deep(7, f)
	case "method":
		(&meth{}).call(f)
	case "go":
		// a goroutine without a test frame is not exercised
		f()
	default:
		helper(f)
	}
}

type meth struct{}

func (*meth) call(f func()) { f() }

func deep(n int, f func()) {
	if n == 0 {
		helper(f)
		return
	}
	deep(n-1, f)
}

// dump prints every field of a config, following pointers
func dump(c *snaps.Config) string {
	v := reflect.ValueOf(c).Elem()
	out := []string{}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		for f.Kind() == reflect.Pointer && !f.IsNil() {
			f = f.Elem()
		}
		out = append(out, fmt.Sprintf("%s=%v", v.Type().Field(i).Name, f))
	}
	return strings.Join(out, ";")
}

func TestMain(m *testing.M) {
	b, err := os.ReadFile(os.Getenv("HSCEN"))
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &sc); err != nil {
		panic(err)
	}
	for k, c := range sc.Shared {
		shared[k] = c.build()
	}
	tests := []testing.InternalTest{}
	for i := range sc.Tests {
		tt := &sc.Tests[i]
		tests = append(tests, testing.InternalTest{Name: tt.Name, F: func(t *testing.T) {
			if tt.Par {
				t.Parallel()
			}
			runSteps(t, tt.Steps)
		}})
	}
	f := reflect.ValueOf(m).Elem().FieldByName("tests")
	*(*[]testing.InternalTest)(unsafe.Pointer(f.UnsafeAddr())) = tests
	res := Result{}
	res.Code = m.Run()
	if sc.Clean != nil && !sc.Clean.None {
		n := sc.Clean.N
		if n == 0 {
			n = 1
		}
		so := os.Stdout
		tmp, _ := os.CreateTemp("", "hout")
		os.Stdout = tmp
		for i := 0; i < n; i++ {
			if sc.Clean.Sort {
				snaps.Clean(m, snaps.CleanOpts{Sort: true})
			} else {
				snaps.Clean(m)
			}
			fmt.Fprint(tmp, "\x00")
		}
		os.Stdout = so
		b, _ := os.ReadFile(tmp.Name())
		os.Remove(tmp.Name())
		res.Stdout = lat(string(b))
	}
	res.Recs = recs
	if res.Recs == nil {
		res.Recs = []*Rec{}
	}
	o, _ := json.Marshal(res)
	if err := os.WriteFile(os.Getenv("HOUT"), o, 0o644); err != nil {
		panic(err)
	}
	os.Exit(0)
}

// norm turns whole numbers back into ints: JSON has decoded them as floats
func norm(v any) any {
	switch x := v.(type) {
	case float64:
		if x == float64(int(x)) {
			return int(x)
		}
	case []any:
		for i := range x {
			x[i] = norm(x[i])
		}
	case map[string]any:
		for k := range x {
			x[k] = norm(x[k])
		}
	}
	return v
}
