package main

import (
	"fmt"
	"os"
	"sort"
)

// unit: a chunk of a function's verification conditions
type unit struct {
	fr   *FnResult
	k    int
	vcs  []int
	size int
}

type shardRes struct {
	vo    *verusOut
	w     *emitter
	bad   map[string]string
	fatal string
}

func makeShards(frs []*FnResult, rlimit int) [][]unit {
	var us []unit
	total := 0
	for _, fr := range frs {
		u := unit{fr: fr}
		flush := func() {
			if len(u.vcs) > 0 {
				us = append(us, u)
				total += u.size
			}
			u = unit{fr: fr, k: u.k + 1}
		}
		for i, vc := range fr.Exec.vcs {
			u.vcs = append(u.vcs, i)
			for _, s := range vc.stmts {
				u.size += len(s.text) + 20
				if s.t != nil {
					u.size += len(s.t.S)
				}
			}
			if len(u.vcs) == modChunk {
				flush()
			}
		}
		flush()
	}
	n := min(8, max(1, total/120000))
	sort.SliceStable(us, func(i, j int) bool { return us[i].size > us[j].size })
	r := make([][]unit, n)
	load := make([]int, n)
	if n > 1 {
		load[0] = total / n / 4 // the spec library is proved there
	}
	for _, u := range us {
		b := 0
		for i := range load {
			if load[i] < load[b] {
				b = i
			}
		}
		r[b] = append(r[b], u)
		load[b] += u.size
	}
	return r
}

func (w *emitter) from(p *emitter) {
	w.b.Write(p.b.Bytes())
	w.line = p.line
}

func runShard(file string, pre *emitter, us []unit, first bool, rlimit, threads int) *shardRes {
	r := &shardRes{bad: map[string]string{}}
	for round := 0; round < 6; round++ {
		w := &emitter{lines: map[int]*lineInfo{}}
		r.w = w
		w.from(pre)
		extra := []string{}
		for _, u := range us {
			w.ln(modHead(u.fr.Func, u.k), nil)
			for _, i := range u.vcs {
				if _, b := r.bad[fmt.Sprintf("%s#%d", u.fr.Func, i)]; b {
					continue
				}
				w.vc(u.fr, i, u.fr.Exec.vcs[i], rlimit)
			}
			w.ln("}", nil)
			extra = append(extra, "--verify-module", modName(u.fr.Func, u.k))
		}
		w.ln("} // verus!", nil)
		os.WriteFile(file, w.b.Bytes(), 0o644)
		if first {
			extra = nil
		}
		secs := 0.0
		if r.vo != nil {
			secs = r.vo.secs
		}
		r.vo = runVerus(file, threads, 8, extra...)
		r.vo.secs += secs
		if !r.vo.fatal {
			return r
		}
		// a clause that does not type check on this code: drop the VC it sits in
		again := false
		for _, d := range r.vo.diags {
			if d.Level != "error" {
				continue
			}
			for _, s := range d.Spans {
				if li := w.lines[s.LineStart]; li != nil && s.Primary {
					k := fmt.Sprintf("%s#%d", li.fn.Func, li.vc)
					if _, b := r.bad[k]; !b {
						r.bad[k] = d.Message
						if debug {
							fmt.Fprintln(os.Stderr, "ill-typed", k, d.Rendered)
						}
						again = true
					}
				}
			}
		}
		if !again {
			msg := ""
			for _, d := range r.vo.diags {
				if d.Level == "error" {
					msg += d.Rendered + "\n"
				}
			}
			if msg == "" {
				msg = r.vo.stderr
			}
			r.fatal = "verus: " + trunc(msg, 4000)
			return r
		}
	}
	r.fatal = "verus: ill-typed clauses remain"
	return r
}

type probeOb struct {
	ob *Oblig
	k  string
}

type probeRes struct {
	probes []probeOb
	failed map[*Oblig]bool
	fatal  string
}

func runProbes(file string, pre *emitter, us []unit, bad map[string]string, threads int) *probeRes {
	r := &probeRes{failed: map[*Oblig]bool{}}
	w := &emitter{lines: map[int]*lineInfo{}}
	w.from(pre)
	extra := []string{}
	for _, u := range us {
		w.ln(modHead(u.fr.Func, u.k), nil)
		n0 := len(r.probes)
		for _, i := range u.vcs {
			if _, b := bad[fmt.Sprintf("%s#%d", u.fr.Func, i)]; b {
				continue
			}
			vc := u.fr.Exec.vcs[i]
			if w.probe(u.fr, i, vc) {
				for _, s := range vc.stmts {
					if s.kind == 'o' && s.ob.Reach {
						r.probes = append(r.probes, probeOb{s.ob, u.fr.Func})
					}
				}
			}
		}
		w.ln("}", nil)
		if len(r.probes) > n0 {
			extra = append(extra, "--verify-module", modName(u.fr.Func, u.k))
		}
	}
	if len(r.probes) == 0 {
		return r
	}
	w.ln("} // verus!", nil)
	os.WriteFile(file, w.b.Bytes(), 0o644)
	v2 := runVerus(file, threads, 0, extra...)
	for _, d := range v2.diags {
		for _, s := range d.Spans {
			if li := w.lines[s.LineStart]; li != nil {
				if li.ob != nil {
					r.failed[li.ob] = true
				} else {
					// resource limit: not proved unreachable
					for _, vs := range li.fn.Exec.vcs[li.vc].stmts {
						if vs.kind == 'o' && vs.ob.Reach {
							r.failed[vs.ob] = true
						}
					}
				}
			}
		}
	}
	if v2.fatal {
		r.fatal = trunc(v2.stderr, 2000)
	}
	return r
}
