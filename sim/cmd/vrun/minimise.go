package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"time"

	"verif.local/sim/simrt"
	"verif.local/sim/world"
)

// verdict is what running one scenario showed.
type verdict struct {
	vs     []world.Violation
	line   *Line
	report string
	done   bool
}

// evaluator runs given scenarios, a batch at a time, in worker processes.
type evaluator struct {
	b       *Build
	scratch string
	hang    time.Duration
	keep    bool
	n       int
	evals   int
	mu      sync.Mutex
}

func (e *evaluator) eval(scs []*world.Scenario) []verdict {
	out := make([]verdict, len(scs))
	par := 8
	if len(scs) < par {
		par = len(scs)
	}
	var sem chan struct{}
	if e.b.Race {
		// the detector reports a race once per process
		par = len(scs)
		sem = make(chan struct{}, 8)
	}
	var wg sync.WaitGroup
	e.evals += len(scs)
	for w := 0; w < par; w++ {
		var idx []int
		for i := w; i < len(scs); i += par {
			idx = append(idx, i)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			if sem != nil {
				sem <- struct{}{}
				defer func() { <-sem }()
			}
			for len(idx) > 0 {
				e.mu.Lock()
				e.n++
				bf := filepath.Join(e.scratch, fmt.Sprintf("batch%d", e.n))
				e.mu.Unlock()
				f, err := os.Create(bf)
				if err != nil {
					return
				}
				enc := json.NewEncoder(f)
				for _, i := range idx {
					enc.Encode(scs[i])
				}
				f.Close()
				p := e.b.start(e.scratch, &Job{Batch: bf, KeepLog: e.keep}, e.hang, nil)
				os.Remove(bf)
				got := 0
				for _, l := range p.lines {
					if l.Index < len(idx) {
						v := verdict{vs: l.Violations, line: l, done: true}
						out[idx[l.Index]] = v
						if l.Index >= got {
							got = l.Index + 1
						}
					}
				}
				if p.how == endOK || p.last < 0 || p.last >= len(idx) || p.how == endInfra {
					return
				}
				if p.last >= got {
					out[idx[p.last]] = verdict{vs: []world.Violation{endViolation(p)}, report: p.stderr, done: true}
				}
				idx = idx[p.last+1:]
			}
		}()
	}
	wg.Wait()
	return out
}

// endViolation turns a process's bad end into a violation.
func endViolation(p *proc) world.Violation {
	switch p.how {
	case endHang:
		return world.Violation{Class: "hang", Msg: fmt.Sprintf("the run made no progress for %v of real time", hangAfter)}
	}
	return world.Violation{Class: "crash", Msg: "the process died: " + crashSummary(p.stderr)}
}

func clone(s *world.Scenario) *world.Scenario {
	b, _ := json.Marshal(s)
	c := new(world.Scenario)
	json.Unmarshal(b, c)
	return c
}

func opCount(s *world.Scenario) int {
	n := 0
	for _, t := range s.Tasks {
		n += len(t.Ops)
	}
	return n
}

type minimiser struct {
	e     *evaluator
	class string
	until time.Time
	best  *world.Scenario
	bestL verdict
}

// try evaluates candidates and adopts the first that still shows the violation.
func (m *minimiser) try(c []*world.Scenario) bool {
	for len(c) > 0 && time.Now().Before(m.until) {
		n := 24
		if n > len(c) {
			n = len(c)
		}
		vs := m.e.eval(c[:n])
		for i, v := range vs {
			if hasClass(v.vs, m.class) != nil && hasClass(v.vs, "harness") == nil {
				m.best, m.bestL = c[i], v
				return true
			}
		}
		c = c[n:]
	}
	return false
}

// with makes a candidate; under a randomised schedule a removal shifts
// every later decision, so a few other schedules are tried too.
func (m *minimiser) with(f func(*world.Scenario) bool) []*world.Scenario {
	c := clone(m.best)
	if !f(c) {
		return nil
	}
	out := []*world.Scenario{c}
	if st := c.Sched.Strategy; st == "random" || st == "pct" {
		for k := uint64(1); k <= 3; k++ {
			d := clone(c)
			d.Sched.Seed = simrt.Mix(c.Sched.Seed + k)
			out = append(out, d)
		}
	}
	return out
}

func (m *minimiser) structure() {
	for time.Now().Before(m.until) {
		var c []*world.Scenario
		add := func(f func(*world.Scenario) bool) { c = append(c, m.with(f)...) }
		b := m.best
		if len(b.Tasks) > 1 {
			for i := range b.Tasks {
				i := i
				add(func(s *world.Scenario) bool {
					s.Tasks = append(s.Tasks[:i:i], s.Tasks[i+1:]...)
					return true
				})
			}
		}
		for i := range b.Faults {
			i := i
			add(func(s *world.Scenario) bool {
				s.Faults = append(s.Faults[:i:i], s.Faults[i+1:]...)
				return true
			})
		}
		for sz := 16; sz >= 1; sz /= 2 {
			for ti, t := range b.Tasks {
				if len(t.Ops) < sz {
					continue
				}
				for at := 0; at < len(t.Ops); at += sz {
					ti, at, sz := ti, at, sz
					add(func(s *world.Scenario) bool {
						t := s.Tasks[ti]
						end := at + sz
						if end > len(t.Ops) {
							end = len(t.Ops)
						}
						t.Ops = append(t.Ops[:at:at], t.Ops[end:]...)
						return true
					})
				}
			}
		}
		if !m.try(c) {
			return
		}
	}
}

func (m *minimiser) simplify() {
	simple := []func(*world.Scenario) bool{
		func(s *world.Scenario) bool {
			n := world.NetCfg{LatMinUs: 1000, LatMaxUs: 1000, Seg: "whole"}
			if s.Net == n {
				return false
			}
			s.Net = n
			return true
		},
		func(s *world.Scenario) bool {
			ch := false
			for _, v := range s.Servers {
				if v.Chunk != "" || v.ProcUs != 0 {
					v.Chunk, v.ProcUs, ch = "", 0, true
				}
			}
			return ch
		},
		func(s *world.Scenario) bool {
			ch := false
			for _, t := range s.Tasks {
				if t.StartMs != 0 {
					t.StartMs, ch = 0, true
				}
			}
			return ch
		},
		func(s *world.Scenario) bool {
			if s.Client.Chunk == 0 {
				return false
			}
			s.Client.Chunk = 0
			return true
		},
	}
	spec := []func(*world.Spec) bool{
		func(s *world.Spec) bool { c := s.NPar != 0 && !s.Bad; s.NPar = 0; return c },
		func(s *world.Spec) bool { c := s.Rows > 1; s.Rows = 1; return c },
		func(s *world.Spec) bool { c := s.Rows > 0; s.Rows = 0; return c },
		func(s *world.Spec) bool { c := s.Sz > 0; s.Sz = 0; return c },
		func(s *world.Spec) bool { c := s.RSz > 0; s.RSz = 0; return c },
		func(s *world.Spec) bool { c := s.Txt > 0; s.Txt = 0; return c },
		func(s *world.Spec) bool { c := s.Fail != ""; s.Fail, s.FailAt = "", 0; return c },
		func(s *world.Spec) bool { c := s.Bad; s.Bad = false; return c },
		func(s *world.Spec) bool { c := s.SlowMs > 0; s.SlowMs = 0; return c },
		func(s *world.Spec) bool { c := s.Stats > 0; s.Stats = 0; return c },
	}
	for _, f := range spec {
		f := f
		simple = append(simple, func(s *world.Scenario) bool {
			ch := false
			for _, t := range s.Tasks {
				for _, o := range t.Ops {
					if o.Spec != nil && f(o.Spec) {
						ch = true
					}
				}
			}
			return ch
		})
	}
	for _, f := range simple {
		if time.Now().After(m.until) {
			return
		}
		m.try(m.with(f))
	}
}

// explicit pins the schedule down to the decisions that differ from the default.
func (m *minimiser) explicit() {
	l := m.bestL.line
	if l == nil {
		return
	}
	c := clone(m.best)
	c.Sched = simrt.Schedule{Strategy: "explicit", Seed: c.Sched.Seed, Preempt: l.Preempt, Choice: l.Choice, Stall: l.Stall}
	if !m.try([]*world.Scenario{c}) {
		return
	}
	type el struct {
		k int
		y uint64
	}
	list := func() (es []el) {
		for _, y := range m.best.Sched.Preempt {
			es = append(es, el{0, y})
		}
		for y := range m.best.Sched.Choice {
			es = append(es, el{1, y})
		}
		for y := range m.best.Sched.Stall {
			es = append(es, el{2, y})
		}
		return
	}
	sz := len(list())
	for sz >= 1 && time.Now().Before(m.until) {
		es := list()
		if sz > len(es) {
			sz = len(es)
		}
		if sz == 0 {
			break
		}
		var c []*world.Scenario
		for at := 0; at < len(es) && len(c) < 400; at += sz {
			end := at + sz
			if end > len(es) {
				end = len(es)
			}
			drop := map[el]bool{}
			for _, x := range es[at:end] {
				drop[x] = true
			}
			d := clone(m.best)
			var pre []uint64
			for _, y := range d.Sched.Preempt {
				if !drop[el{0, y}] {
					pre = append(pre, y)
				}
			}
			d.Sched.Preempt = pre
			for y := range d.Sched.Choice {
				if drop[el{1, y}] {
					delete(d.Sched.Choice, y)
				}
			}
			for y := range d.Sched.Stall {
				if drop[el{2, y}] {
					delete(d.Sched.Stall, y)
				}
			}
			c = append(c, d)
		}
		if !m.try(c) {
			if sz == 1 {
				break
			}
			sz /= 2
		}
	}
}

func (m *minimiser) run() {
	s := clone(m.best)
	s.Sched = simrt.Schedule{Strategy: "seq"}
	m.try([]*world.Scenario{s})
	m.structure()
	m.simplify()
	m.structure()
	if m.best.Sched.Strategy != "seq" {
		m.explicit()
		m.structure()
	}
}
