package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif.local/sim/world"
)

type plan struct {
	runs int
	capS float64
}

func planFor(prop, tier string) plan {
	p := plan{runs: 40000, capS: 120}
	if prop == "C16" {
		p = plan{runs: 8000, capS: 120}
	}
	if tier == "thorough" {
		p = plan{runs: 4000000, capS: 1500}
	}
	if n, err := strconv.Atoi(os.Getenv("VERIF_RUNS")); err == nil {
		p.runs = n
	}
	return p
}

// found is a run that broke the property.
type found struct {
	index int
	line  *Line
	v     world.Violation
	rep   string
	again *Line
}

func check(prop, tier string) int {
	if classes[prop] == nil {
		fatal("no such property: %s", prop)
	}
	begin := time.Now()
	seed := verifSeed()
	b, buildT, err := buildFor(prop, prop+"-"+tier)
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(b.Dir)
	scratch := mkScratch(b.Dir)
	known := knownFindings()
	pl := planFor(prop, tier)

	const workers = 8
	stop := make(chan struct{})
	var stopOnce sync.Once
	var mu sync.Mutex
	var finds []found
	var total Agg
	var samples []*Line
	var digs []string
	var warn, unconfirmed []string
	other := map[string]int{}
	otherAt := map[string]int{}
	lost := 0
	diedAt := map[int]bool{}
	searchBegin := time.Now()
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			next, left := w, pl.runs/workers
			for left > 0 {
				cap := pl.capS - time.Since(searchBegin).Seconds()
				if cap <= 0 {
					return
				}
				n := left
				if b.Race && n > 200 {
					n = 200 // nothing is collected in these processes
				}
				j := &Job{Prop: prop, Seed: seed, Start: next, Stride: workers, Count: n, CapS: cap, StopAt: 1, Classes: ownClasses(prop), Known: knownFor(known, prop), Compact: true}
				if w == 0 {
					j.Samples = 3
				}
				p := b.start(scratch, j, hangAfter, stop)
				mu.Lock()
				total.merge(&p.agg)
				digs = append(digs, j.Dig)
				hit := false
				var mine []found
				at := -1 // the run the search goes on after, when it is stopped by one
				for _, l := range p.lines {
					if h := hasClass(l.Violations, "harness"); h != nil {
						warn = append(warn, fmt.Sprintf("run %d: harness: %s", l.Index, h.Msg))
					}
					if v := own(prop, l.Violations); v != nil {
						mine = append(mine, found{index: l.Index, line: l, v: *v})
						if l.Index > at {
							at = l.Index
						}
					} else if len(l.Violations) > 0 {
						for _, v := range l.Violations {
							if other[v.Class] == 0 {
								otherAt[v.Class] = l.Index
							}
							other[v.Class]++
						}
					} else if len(samples) < 3 {
						samples = append(samples, l)
					}
				}
				again := false
				switch p.how {
				case endCrash, endHang:
					v := endViolation(p)
					if (p.killed || p.how == endHang) && p.last >= 0 && !diedAt[p.last] {
						// out of memory or time: this machine's or the run's own
						// doing, which the same run in a fresh process tells
						diedAt[p.last] = true
						again = true
					} else if v.Class == "harness" {
						warn = append(warn, fmt.Sprintf("run %d: %s", p.last, v.Msg))
					} else if p.last < 0 {
						warn = append(warn, "a worker died before its first run: "+p.stderr)
						left = 0
					} else {
						mine = append(mine, found{index: p.last, v: v, rep: p.stderr})
					}
					lost++
				case endInfra:
					warn = append(warn, "a worker could not be started: "+p.stderr)
					left = 0
				}
				mu.Unlock()
				for _, f := range mine {
					// the run alone, in a fresh process, must show the same thing
					if !b.confirm(scratch, prop, seed, &f, known) {
						mu.Lock()
						unconfirmed = append(unconfirmed, fmt.Sprintf("run %d: %s: %s", f.index, f.v.Class, f.v.Msg))
						mu.Unlock()
						continue
					}
					if isKnown(known, prop, &f.v) {
						continue
					}
					mu.Lock()
					finds = append(finds, f)
					mu.Unlock()
					hit = true
				}
				if hit {
					// the others get a moment, so that the earliest finding is likely the one reported
					stopOnce.Do(func() {
						go func() {
							time.Sleep(1500 * time.Millisecond)
							close(stop)
						}()
					})
					return
				}
				if p.how == endKill || left == 0 {
					return
				}
				if p.how == endOK && at < 0 {
					next += n * workers
					left -= n
					continue
				}
				if p.last > at {
					at = p.last
				}
				done := (at-next)/workers + 1
				if again {
					done--
				}
				next += done * workers
				left -= done
			}
		}(w)
	}
	wg.Wait()
	search := time.Since(searchBegin)
	sort.Slice(finds, func(i, j int) bool { return finds[i].index < finds[j].index })

	violations := 0
	exit := 0
	for k := 0; k < len(finds) && violations == 0; k++ {
		f := finds[k]
		violations++
		path := report(b, scratch, prop, tier, seed, f, f.again, f.rep)
		fmt.Printf("%s: run %d (seed %d): %s: %s\n", prop, f.index, seed, f.v.Class, firstLines(f.v.Msg, 12))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		exit = 1
	}
	for _, k := range known {
		if k.Prop == prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.Text)
		}
	}

	// determinism: a sample of the runs once more, in another process and order
	det, detBad := 0, 0
	if violations == 0 && total.Runs > 0 {
		det, detBad = determinism(b, scratch, prop, seed, total.Runs)
	}
	ev := evidence(prop, tier, seed, b, &total, digs, samples, search, pl)
	cov := ev["coverage"].(map[string]interface{})
	cov["determinism_check"] = map[string]int{"runs_repeated": det, "digest_mismatches": detBad}
	cov["build_s"] = round(buildT.Seconds())
	cov["worker_processes_lost"] = lost
	if len(knownFor(known, prop)) > 0 {
		cov["runs_showing_a_known_finding"] = total.Known
	}
	if len(other) > 0 {
		cov["violations_of_other_properties"] = other
		fmt.Printf("NOTE: violations that do not concern %s were seen: %v (first at %v)\n", prop, other, otherAt)
	}
	if len(unconfirmed) > 0 {
		cov["unconfirmed"] = unconfirmed
	}
	ev["violations"] = violations
	ev["wall_s"] = round(time.Since(begin).Seconds())
	writeEvidence(prop, ev)
	for _, w := range warn {
		fmt.Fprintln(os.Stderr, "vrun: "+firstLines(w, 40))
	}
	if detBad > 0 {
		fmt.Fprintf(os.Stderr, "vrun: %d of %d repeated runs differed: something nondeterministic is not behind a seam\n", detBad, det)
	}
	for _, u := range unconfirmed {
		fmt.Println("NOTE: seen once and not again in the same run alone, so not reported: " + firstLines(u, 30))
	}
	fmt.Printf("%s %s seed=%d: %d runs in %.1fs (build %.1fs), %v distinct non-trivial, %d violations\n", prop, tier, seed, total.Runs, search.Seconds(), buildT.Seconds(), cov["distinct_nontrivial"], violations)
	if exit == 0 {
		if len(warn) > 0 {
			exit = 2
		}
		if total.Runs < 100 {
			fmt.Fprintln(os.Stderr, "vrun: hardly anything was explored")
			exit = 2
		}
	}
	return exit
}

// confirm runs a finding's run alone in a fresh process, where it must show
// the same thing: a few times, for a machine short of memory or time.
func (b *Build) confirm(scratch, prop string, seed uint64, f *found, known []Known) bool {
	for a := 0; a < 4; a++ {
		p := b.start(scratch, &Job{Prop: prop, Seed: seed, Only: []int{f.index}, KeepLog: true, Known: knownFor(known, prop)}, hangAfter, nil)
		for _, l := range p.lines {
			if v := hasClass(l.Violations, f.v.Class); v != nil {
				f.again, f.v = l, *v
				return true
			}
		}
		if p.how == endCrash || p.how == endHang {
			if v := endViolation(p); v.Class == f.v.Class {
				f.v, f.rep = v, p.stderr
				return true
			}
		}
	}
	return false
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = append(l[:n], "...")
	}
	return strings.Join(l, "\n")
}

func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

var goroutineRE = regexp.MustCompile(`(?m)^(panic: .*|fatal error: .*|runtime: .*|SIG.*|unexpected fault.*)$`)

func crashSummary(s string) string {
	m := goroutineRE.FindAllString(s, 3)
	if len(m) == 0 {
		return firstLines(s, 5)
	}
	var fr []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, libPath) && len(fr) < 4 {
			fr = append(fr, l)
		}
	}
	return strings.Join(append(m, fr...), "\n")
}

func report(b *Build, scratch, prop, tier string, seed uint64, f found, line *Line, rep string) string {
	dir := filepath.Join(verifDir, "evidence", "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", prop, seed, f.index))
	rf := &ReplayFile{Property: prop, Class: f.v.Class, Message: f.v.Msg, Seed: seed, Index: f.index, Race: b.Race, Report: rep,
		HowTo: "/verif/replay.sh " + path}
	var sc *world.Scenario
	if line != nil {
		sc = line.Scenario
		rf.RunSeed, rf.Digest = line.Seed, line.Digest
	} else if f.line != nil {
		sc = f.line.Scenario
	}
	if sc == nil {
		sc = b.scenario(scratch, prop, seed, f.index)
	}
	rf.Minimised = "not minimised"
	if sc == nil {
		rf.Minimised = "the scenario could not be obtained; run: vrun run " + prop + fmt.Sprint(" ", f.index)
	} else {
		rf.Scenario, rf.Original = sc, sc
		rf.RunSeed = sc.Seed
		budget := 40 * time.Second
		hang := 20 * time.Second
		if f.v.Class == "hang" && line == nil {
			budget = 0
		}
		e := &evaluator{b: b, scratch: scratch, hang: hang}
		m := &minimiser{e: e, class: f.v.Class, until: time.Now().Add(budget), best: sc}
		if m.try([]*world.Scenario{clone(sc)}) {
			m.run()
			// the final say, with the log
			e.keep, e.hang = true, hangAfter
			v := e.eval([]*world.Scenario{m.best})[0]
			if got := hasClass(v.vs, f.v.Class); got != nil {
				rf.Scenario, rf.Message = m.best, got.Msg
				rf.Report = v.report
				if v.line != nil {
					rf.Digest, rf.Trace = v.line.Digest, v.line.Log
				}
				rf.Minimised = fmt.Sprintf("%d executions: %d -> %d client operations in %d -> %d tasks, %d -> %d faults, schedule %s -> %s with %d preemptions, %d choices, %d stalls",
					e.evals, opCount(sc), opCount(m.best), len(sc.Tasks), len(m.best.Tasks), len(sc.Faults), len(m.best.Faults), sc.Sched.Strategy, m.best.Sched.Strategy,
					len(m.best.Sched.Preempt), len(m.best.Sched.Choice), len(m.best.Sched.Stall))
			}
		}
	}
	if n := len(rf.Trace); n > 400 {
		rf.Trace = append([]string{"..."}, rf.Trace[n-400:]...)
	}
	jb, _ := json.MarshalIndent(rf, "", " ")
	if err := os.WriteFile(path, jb, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "vrun:", err)
	}
	return path
}

func determinism(b *Build, scratch, prop string, seed uint64, runs int) (int, int) {
	n := 64
	if runs < n {
		n = runs
	}
	var a, z []int
	for i := 0; i < n; i++ {
		x := i * (runs / n) / 8 * 8
		a = append(a, x)
		z = append([]int{x}, z...)
	}
	var r [2]*proc
	var wg sync.WaitGroup
	for k, only := range [][]int{a, z} {
		k, only := k, only
		wg.Add(1)
		go func() {
			defer wg.Done()
			r[k] = b.start(scratch, &Job{Prop: prop, Seed: seed, Only: only}, hangAfter, nil)
		}()
	}
	wg.Wait()
	d := map[int]uint64{}
	for _, l := range r[0].lines {
		d[l.Index] = l.Digest ^ l.Inter<<1
	}
	cnt, bad := 0, 0
	for _, l := range r[1].lines {
		if x, ok := d[l.Index]; ok {
			cnt++
			if x != l.Digest^l.Inter<<1 {
				bad++
			}
		}
	}
	return cnt, bad
}

func (b *Build) scenario(scratch, prop string, seed uint64, index int) *world.Scenario {
	p := b.start(scratch, &Job{Prop: prop, Seed: seed, Only: []int{index}, KeepLog: true, CapS: -1}, hangAfter, nil)
	for _, l := range p.lines {
		return l.Scenario
	}
	return nil
}

func evidence(prop, tier string, seed uint64, b *Build, a *Agg, digs []string, samples []*Line, search time.Duration, pl plan) map[string]interface{} {
	dist := map[uint64]struct{}{}
	inter := map[uint64]struct{}{}
	nontriv := 0
	faulty, switched := 0, 0
	executed := 0
	var unreached []string
	for i, at := range b.Sites {
		if i < len(a.Hit) && a.Hit[i] != 0 {
			executed++
		} else {
			unreached = append(unreached, at)
		}
	}
	for _, d := range digs {
		bs, err := os.ReadFile(d)
		if err != nil {
			continue
		}
		for ; len(bs) >= 24; bs = bs[24:] {
			dg, il, fl := binary.LittleEndian.Uint64(bs), binary.LittleEndian.Uint64(bs[8:]), binary.LittleEndian.Uint64(bs[16:])
			inter[il] = struct{}{}
			if fl&1 != 0 {
				faulty++
			}
			if fl&4 != 0 {
				switched++
			}
			key := dg ^ il*0x9E3779B97F4A7C15
			if _, ok := dist[key]; ok {
				continue
			}
			dist[key] = struct{}{}
			if fl&2 != 0 || fl&1 != 0 {
				nontriv++
			}
		}
	}
	hours := search.Hours()
	perHour := 0
	if hours > 0 {
		perHour = int(float64(a.Runs) / hours)
	}
	faults := 0
	for _, n := range a.Faults {
		faults += n
	}
	var smp []interface{}
	for _, l := range samples {
		s := map[string]interface{}{
			"index": l.Index, "flavour": l.Name, "run_seed": l.Seed, "outcome": l.Outcome, "digest": fmt.Sprintf("%016x", l.Digest),
			"requests": l.Requests, "calls": l.Calls, "faults_fired": l.Faults, "switches": l.Switches, "sim_ms": l.SimMs,
		}
		if l.Scenario != nil {
			s["scenario"] = l.Scenario
		}
		smp = append(smp, s)
	}
	cov := map[string]interface{}{
		"evaluations":         a.Runs,
		"distinct_nontrivial": nontriv,
		"rule": "a case is a scenario (client configuration, servers, client tasks and their calls, network behaviour, faults with triggers, schedule) generated from hash(VERIF_SEED, property, index) and executed to its end in the simulator; " +
			"two cases are the same if both the digest of everything observable (calls, replies, bytes, events, simulated times) and the hash of the scheduling decisions agree; a case is non-trivial if at least one request reached a simulated server or at least one fault fired",
		"samples":                   smp,
		"runs_per_hour":             perHour,
		"seeds_per_hour":            perHour,
		"simulated_hours":           round(float64(a.SimMs) / 3.6e6),
		"simulated_ms":              a.SimMs,
		"distinct_interleavings":    len(inter),
		"interleaving_measure":      "hash of the sequence of (scheduling point, task) decisions of a run",
		"distinct_executions":       len(dist),
		"runs_with_faults":          faulty,
		"runs_with_task_switches":   switched,
		"faults_injected":           a.Faults,
		"faults_injected_total":     faults,
		"reached":                   a.Probes,
		"flavours":                  a.Names,
		"schedulers":                a.Strategy,
		"outcomes":                  a.Outcomes,
		"scheduling_points":         a.Yields,
		"task_switches":             a.Switches,
		"requests_served":           a.Requests,
		"connections":               a.Conns,
		"client_calls":              a.Calls,
		"calls_that_succeeded":      a.OK,
		"calls_that_failed":         a.Failed,
		"commits":                   a.Commits,
		"planned_runs":              pl.runs,
		"real_components":           append(append([]string{}, b.LibPkgs...), append(append([]string{}, b.DepPkgs...), "crypto/tls, crypto/x509, encoding/*, net/url and the rest of the standard library")...),
		"stub_components":           []string{"net.Dial and net.Conn (simulated network)", "Neo4j servers (executable model of Bolt v1-v4, with transactions, databases and a cluster)", "clock and timers (testing/synctest virtual time)", "goroutine scheduling, sync, channels and select (seeded scheduler)", "randomness (seeded)"},
		"instrumented_files":        b.Files,
		"instrumented_statements":   len(b.Sites),
		"statements_executed":       executed,
		"race_detector":             b.Race,
		"violation_classes_checked": ownClasses(prop),
	}
	if f := os.Getenv("VERIF_UNREACHED"); f != "" {
		os.WriteFile(f, []byte(strings.Join(unreached, "\n")+"\n"), 0o644)
	}
	return map[string]interface{}{
		"property": prop, "tier": tier, "seed": int64(seed & 0x7fffffffffffffff), "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"the model servers follow the Bolt v1-v4 specification where they are not told to misbehave",
			"scheduling is decided at every statement of the library and its pool dependency, at every lock, channel and network operation; a statement itself is atomic (data races are C16's subject)",
			"simulated time passes only while every task waits, except where a task is stalled on purpose",
		},
	}
}

func writeEvidence(prop string, ev map[string]interface{}) {
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	jb, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), jb, 0o644); err != nil {
		fatal("%v", err)
	}
}
