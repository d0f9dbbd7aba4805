// Package worker runs simulated executions. It is compiled as a test binary
// because the virtual clock (testing/synctest) is only available there.
package worker

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"testing"
	"testing/cryptotest"
	"testing/synctest"
	"time"
	_ "time/tzdata" // named zones, whatever is installed

	"verif.local/sim/gen"
	"verif.local/sim/runner"
	"verif.local/sim/simrt"
	"verif.local/sim/world"
)

// Known identifies violations that are listed as known findings.
type Known struct {
	Class, Match string
}

// known takes the known findings out of the violations of a run.
func (j *Job) known(vs []world.Violation) (rest []world.Violation, n int) {
	for _, v := range vs {
		is := false
		for _, k := range j.Known {
			is = is || (k.Class == "" || k.Class == v.Class) && strings.Contains(v.Msg, k.Match)
		}
		if is {
			n++
		} else {
			rest = append(rest, v)
		}
	}
	return rest, n
}

// Job says what this process has to run.
type Job struct {
	Prop     string  `json:"prop"`
	Seed     uint64  `json:"seed"`
	Start    int     `json:"start"`
	Stride   int     `json:"stride"`
	Count    int     `json:"count"` // runs of this worker
	CapS     float64 `json:"cap_s"`
	Batch    string  `json:"batch,omitempty"` // file of scenarios, one per line
	Only     []int   `json:"only,omitempty"`
	Out      string  `json:"out"`
	Progress string  `json:"progress"`
	Dir      string  `json:"dir"`
	KeepLog  bool    `json:"keep_log,omitempty"`
	StopAt   int     `json:"stop_at,omitempty"` // stop after this many violating runs
	MemLimit uint64  `json:"mem_limit,omitempty"`
	Known    []Known `json:"known,omitempty"` // findings that are not reported again
	// Classes are the violation classes that count towards StopAt (none: all).
	Classes []string `json:"classes,omitempty"`
	// Compact: aggregate instead of writing every run; runs are written only
	// when they violate something, or as samples.
	Compact bool   `json:"compact,omitempty"`
	Agg     string `json:"agg,omitempty"` // file the aggregate goes to
	Dig     string `json:"dig,omitempty"` // file of 24 byte records: digest, interleaving, flags
	Samples int    `json:"samples,omitempty"`
}

// Agg is what a worker did so far.
type Agg struct {
	Runs      int            `json:"runs"`
	SimMs     int64          `json:"sim_ms"`
	Yields    uint64         `json:"yields"`
	Switches  uint64         `json:"switches"`
	Requests  int            `json:"requests"`
	Conns     int            `json:"conns"`
	Calls     int            `json:"calls"`
	OK        int            `json:"ok"`
	Failed    int            `json:"failed"`
	Commits   int            `json:"commits"`
	WallUs    int64          `json:"wall_us"`
	Violating int            `json:"violating"`
	Known     int            `json:"known"`
	Faults    map[string]int `json:"faults"`
	Probes    map[string]int `json:"probes"`
	Names     map[string]int `json:"names"`
	Outcomes  map[string]int `json:"outcomes"`
	Strategy  map[string]int `json:"strategy"`
	Hit       []byte         `json:"hit"`
}

func (a *Agg) add(l *Line, sc *world.Scenario) {
	a.Runs++
	a.SimMs += l.SimMs
	a.Yields += l.Yields
	a.Switches += l.Switches
	a.Requests += l.Requests
	a.Conns += l.Conns
	a.Calls += l.Calls
	a.OK += l.OK
	a.Failed += l.Failed
	a.Commits += l.Commits
	a.WallUs += l.WallUs
	if len(l.Violations) > 0 {
		a.Violating++
	}
	for k, v := range l.Faults {
		a.Faults[k] += v
	}
	for k, v := range l.Probes {
		a.Probes[k] += v
	}
	a.Names[sc.Name]++
	a.Outcomes[l.Outcome]++
	a.Strategy[sc.Sched.Strategy]++
}

type Line struct {
	*runner.Result
	Seed     uint64          `json:"seed"`
	Scenario *world.Scenario `json:"scenario,omitempty"`
	WallUs   int64           `json:"wall_us"`
}

func TestWorker(t *testing.T) {
	jf := os.Getenv("SIM_JOB")
	if jf == "" {
		t.Skip("no job")
	}
	b, err := os.ReadFile(jf)
	if err != nil {
		t.Fatal(err)
	}
	var j Job
	if err := json.Unmarshal(b, &j); err != nil {
		t.Fatal(err)
	}
	if j.MemLimit > 0 {
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: j.MemLimit, Max: j.MemLimit})
	}
	log.SetOutput(io.Discard)
	// output the code under test prints is of no interest
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	for _, dir := range []string{j.Dir, filepath.Join(j.Dir, world.OddDir)} {
		if err := os.MkdirAll(dir, 0o755); err != nil {
			t.Fatal(err)
		}
		for _, n := range []string{"ca.pem", "client.pem", "client.key"} {
			if err := os.WriteFile(filepath.Join(dir, n), world.CertFile(n), 0o600); err != nil {
				t.Fatal(err)
			}
		}
	}
	pf, err := os.OpenFile(j.Progress, os.O_CREATE|os.O_RDWR, 0o600)
	if err != nil {
		t.Fatal(err)
	}
	of, err := os.OpenFile(j.Out, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o600)
	if err != nil {
		t.Fatal(err)
	}
	w := bufio.NewWriterSize(of, 1<<16)
	begin := time.Now()
	bad := 0
	agg := &Agg{Faults: map[string]int{}, Probes: map[string]int{}, Names: map[string]int{}, Outcomes: map[string]int{}, Strategy: map[string]int{}}
	var dw *bufio.Writer
	if j.Dig != "" {
		df, err := os.OpenFile(j.Dig, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o600)
		if err != nil {
			t.Fatal(err)
		}
		dw = bufio.NewWriterSize(df, 1<<12)
	}
	flush := func() {
		if dw != nil {
			dw.Flush()
		}
		if j.Agg != "" {
			agg.Hit = simrt.Hit[:]
			ab, _ := json.Marshal(agg)
			os.WriteFile(j.Agg+".tmp", ab, 0o600)
			os.Rename(j.Agg+".tmp", j.Agg)
		}
	}
	defer func() {
		// not through the testing package, which would call a run with a
		// data race a failed test
		w.Flush()
		flush()
		os.Exit(0)
	}()
	last := begin
	do := func(i int, sc *world.Scenario) bool {
		var pb [16]byte
		binary.LittleEndian.PutUint64(pb[:], uint64(i)+1)
		binary.LittleEndian.PutUint64(pb[8:], uint64(time.Now().UnixNano()))
		pf.WriteAt(pb[:], 0)
		t0 := time.Now()
		l := &Line{Result: one(t, sc, j.Dir, j.KeepLog), Seed: sc.Seed}
		l.Index = i
		var old int
		l.Violations, old = j.known(l.Violations)
		agg.Known += old
		l.WallUs = time.Since(t0).Microseconds()
		agg.add(l, sc)
		if dw != nil {
			var rec [24]byte
			binary.LittleEndian.PutUint64(rec[:], l.Digest)
			binary.LittleEndian.PutUint64(rec[8:], l.Inter)
			var fl uint64
			if len(l.Faults) > 0 {
				fl |= 1
			}
			if l.Requests > 0 {
				fl |= 2
			}
			if l.Switches > 0 {
				fl |= 4
			}
			binary.LittleEndian.PutUint64(rec[16:], fl)
			dw.Write(rec[:])
		}
		if now := time.Now(); now.Sub(last) > 2*time.Second {
			last = now
			flush()
		}
		if j.Compact && len(l.Violations) == 0 && agg.Runs > j.Samples {
			return true
		}
		if len(l.Violations) > 0 || j.KeepLog || i < 3 || j.Compact {
			l.Scenario = sc
		} else {
			l.Preempt, l.Choice, l.Stall = nil, nil, nil
		}
		eb, err := json.Marshal(l)
		if err != nil {
			t.Fatal(err)
		}
		w.Write(eb)
		w.WriteByte('\n')
		w.Flush()
		if j.counts(l.Violations) {
			bad++
		}
		return j.StopAt == 0 || bad < j.StopAt
	}
	if j.Batch != "" {
		f, err := os.Open(j.Batch)
		if err != nil {
			t.Fatal(err)
		}
		dec := json.NewDecoder(bufio.NewReader(f))
		for i := 0; ; i++ {
			sc := new(world.Scenario)
			if err := dec.Decode(sc); err == io.EOF {
				break
			} else if err != nil {
				t.Fatal(err)
			}
			do(i, sc)
		}
		return
	}
	if j.Only != nil {
		for _, i := range j.Only {
			do(i, gen.Make(j.Prop, gen.Seed(j.Seed, j.Prop, i)))
		}
		return
	}
	for k := 0; k < j.Count; k++ {
		if j.CapS > 0 && time.Since(begin).Seconds() > j.CapS {
			break
		}
		i := j.Start + k*j.Stride
		if !do(i, gen.Make(j.Prop, gen.Seed(j.Seed, j.Prop, i))) {
			break
		}
	}
}

func (j *Job) counts(vs []world.Violation) bool {
	for _, v := range vs {
		if len(j.Classes) == 0 {
			return true
		}
		for _, c := range j.Classes {
			if c == v.Class {
				return true
			}
		}
	}
	return false
}

// one executes one scenario in its own bubble.
func one(t *testing.T, sc *world.Scenario, dir string, keep bool) (res *runner.Result) {
	defer func() {
		if e := recover(); e != nil {
			msg := fmt.Sprint(e)
			if res == nil {
				res = &runner.Result{Name: sc.Name, Outcome: "crash"}
			}
			if strings.Contains(msg, "deadlock") {
				// goroutines the code under test left behind for good
				return
			}
			res.Violations = append(res.Violations, world.Violation{Class: "harness", Msg: msg + "\n" + string(debug.Stack())})
		}
	}()
	var m0, m1 runtime.MemStats
	if sc.MemMax > 0 {
		runtime.ReadMemStats(&m0)
	}
	var got *runner.Result
	t.Run("", func(t *testing.T) {
		cryptotest.SetGlobalRandom(t, sc.Seed)
		defer func() {
			if e := recover(); e != nil {
				if got == nil || !strings.Contains(fmt.Sprint(e), "deadlock") {
					if got == nil {
						got = &runner.Result{Name: sc.Name, Outcome: "crash"}
					}
					got.Violations = append(got.Violations, world.Violation{Class: "harness", Msg: fmt.Sprint(e) + "\n" + string(debug.Stack())})
				}
			}
		}()
		synctest.Test(t, func(t *testing.T) {
			got = runner.Execute(sc, dir, keep)
		})
	})
	res = got
	if res == nil {
		res = &runner.Result{Name: sc.Name, Outcome: "crash", Violations: []world.Violation{{Class: "harness", Msg: "the run ended without a result"}}}
		return
	}
	if sc.MemMax > 0 {
		runtime.ReadMemStats(&m1)
		if d := int64(m1.TotalAlloc - m0.TotalAlloc); d > sc.MemMax {
			res.Violations = append(res.Violations, world.Violation{Class: "memory", Msg: fmt.Sprintf("the run allocated %d MB (limit %d MB)", d>>20, sc.MemMax>>20)})
		}
	}
	return
}

var _ = simrt.Mix
