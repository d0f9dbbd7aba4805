package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"syscall"
	"time"

	"verif.local/sim/world"
)

// Job mirrors the worker's job file.
type Job struct {
	Prop     string   `json:"prop"`
	Seed     uint64   `json:"seed"`
	Start    int      `json:"start"`
	Stride   int      `json:"stride"`
	Count    int      `json:"count"`
	CapS     float64  `json:"cap_s"`
	Batch    string   `json:"batch,omitempty"`
	Only     []int    `json:"only,omitempty"`
	Out      string   `json:"out"`
	Progress string   `json:"progress"`
	Dir      string   `json:"dir"`
	KeepLog  bool     `json:"keep_log,omitempty"`
	StopAt   int      `json:"stop_at,omitempty"`
	MemLimit uint64   `json:"mem_limit,omitempty"`
	Known    []Known  `json:"known,omitempty"`
	Classes  []string `json:"classes,omitempty"`
	Compact  bool     `json:"compact,omitempty"`
	Agg      string   `json:"agg,omitempty"`
	Dig      string   `json:"dig,omitempty"`
	Samples  int      `json:"samples,omitempty"`
}

type Line struct {
	*world.RunResult
	Seed     uint64          `json:"seed"`
	Scenario *world.Scenario `json:"scenario,omitempty"`
	WallUs   int64           `json:"wall_us"`
}

// Agg mirrors the worker's aggregate.
type Agg struct {
	Runs      int            `json:"runs"`
	SimMs     int64          `json:"sim_ms"`
	Yields    uint64         `json:"yields"`
	Switches  uint64         `json:"switches"`
	Requests  int            `json:"requests"`
	Conns     int            `json:"conns"`
	Calls     int            `json:"calls"`
	OK        int            `json:"ok"`
	Failed    int            `json:"failed"`
	Commits   int            `json:"commits"`
	WallUs    int64          `json:"wall_us"`
	Violating int            `json:"violating"`
	Known     int            `json:"known"`
	Faults    map[string]int `json:"faults"`
	Probes    map[string]int `json:"probes"`
	Names     map[string]int `json:"names"`
	Outcomes  map[string]int `json:"outcomes"`
	Strategy  map[string]int `json:"strategy"`
	Hit       []byte         `json:"hit"`
}

func addMap(a *map[string]int, b map[string]int) {
	if *a == nil {
		*a = map[string]int{}
	}
	for k, v := range b {
		(*a)[k] += v
	}
}

func (a *Agg) merge(b *Agg) {
	a.Runs += b.Runs
	a.SimMs += b.SimMs
	a.Yields += b.Yields
	a.Switches += b.Switches
	a.Requests += b.Requests
	a.Conns += b.Conns
	a.Calls += b.Calls
	a.OK += b.OK
	a.Failed += b.Failed
	a.Commits += b.Commits
	a.WallUs += b.WallUs
	a.Violating += b.Violating
	a.Known += b.Known
	addMap(&a.Faults, b.Faults)
	addMap(&a.Probes, b.Probes)
	addMap(&a.Names, b.Names)
	addMap(&a.Outcomes, b.Outcomes)
	addMap(&a.Strategy, b.Strategy)
	if a.Hit == nil {
		a.Hit = make([]byte, len(b.Hit))
	}
	for i := range b.Hit {
		if i < len(a.Hit) {
			a.Hit[i] |= b.Hit[i]
		}
	}
}

// how a worker process ended
const (
	endOK    = "ok"
	endCrash = "crash"
	endHang  = "hang"
	endKill  = "killed" // by us, because somebody else found something
	endInfra = "infra"
)

// proc is one worker process.
type proc struct {
	job    *Job
	how    string
	stderr string
	lines  []*Line
	agg    Agg
	last   int // index of the run in progress when it ended
	wall   time.Duration
	killed bool // by SIGKILL, not by us
}

// one run may take this long of real time before it counts as stuck
const hangAfter = 60 * time.Second

var jobNo struct {
	sync.Mutex
	n int
}

// start runs a worker process to its end.
func (b *Build) start(scratch string, j *Job, hang time.Duration, stop <-chan struct{}) *proc {
	jobNo.Lock()
	jobNo.n++
	n := jobNo.n
	jobNo.Unlock()
	dir := filepath.Join(scratch, fmt.Sprintf("w%d", n))
	os.MkdirAll(dir, 0o700)
	defer os.RemoveAll(dir)
	j.Dir = dir
	j.Out = filepath.Join(dir, "out")
	j.Progress = filepath.Join(dir, "progress")
	j.Agg = filepath.Join(dir, "agg")
	if j.Dig == "" && j.Compact {
		j.Dig = filepath.Join(scratch, fmt.Sprintf("dig%d", n))
	}
	if !b.Race {
		j.MemLimit = 12 << 30
	}
	jb, _ := json.Marshal(j)
	jf := filepath.Join(dir, "job.json")
	p := &proc{job: j, last: -1}
	if err := os.WriteFile(jf, jb, 0o600); err != nil {
		p.how, p.stderr = endInfra, err.Error()
		return p
	}
	ef, err := os.Create(filepath.Join(dir, "stderr"))
	if err != nil {
		p.how, p.stderr = endInfra, err.Error()
		return p
	}
	c := exec.Command(b.Worker, "-test.run", "TestWorker", "-test.timeout", "0")
	c.Dir = dir
	c.Stdout, c.Stderr = ef, ef
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	c.Env = append(os.Environ(), "SIM_JOB="+jf, "GOMAXPROCS=1", "TZ=Asia/Kolkata", "GOGC="+gogc(b), "GOTRACEBACK=single", fmt.Sprintf("SIM_RACECTX=%d", b.RaceCtx), "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=5")
	begin := time.Now()
	if err := c.Start(); err != nil {
		p.how, p.stderr = endInfra, err.Error()
		return p
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	tick := time.NewTicker(300 * time.Millisecond)
	defer tick.Stop()
	prog := func() (int, time.Time) {
		var pb [16]byte
		f, err := os.Open(j.Progress)
		if err != nil {
			return -1, begin
		}
		defer f.Close()
		if n, _ := f.ReadAt(pb[:], 0); n < 16 {
			return -1, begin
		}
		return int(binary.LittleEndian.Uint64(pb[:])) - 1, time.Unix(0, int64(binary.LittleEndian.Uint64(pb[8:])))
	}
	var werr error
	how := ""
wait:
	for {
		select {
		case werr = <-done:
			break wait
		case <-stop:
			syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
			how = endKill
			<-done
			break wait
		case <-tick.C:
			if _, at := prog(); time.Since(at) > hang {
				syscall.Kill(-c.Process.Pid, syscall.SIGQUIT)
				select {
				case <-done:
				case <-time.After(2 * time.Second):
					syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
					<-done
				}
				how = endHang
				break wait
			}
		}
	}
	ef.Close()
	p.wall = time.Since(begin)
	p.last, _ = prog()
	p.stderr = clipFile(filepath.Join(dir, "stderr"), 12000)
	if f, err := os.Open(j.Out); err == nil {
		dec := json.NewDecoder(bufio.NewReaderSize(f, 1<<16))
		for {
			l := new(Line)
			if dec.Decode(l) != nil {
				break
			}
			p.lines = append(p.lines, l)
		}
		f.Close()
	}
	if ab, err := os.ReadFile(j.Agg); err == nil {
		json.Unmarshal(ab, &p.agg)
	}
	switch {
	case how != "":
		p.how = how
	case werr == nil:
		p.how = endOK
	default:
		p.how = endCrash
		if ee, ok := werr.(*exec.ExitError); ok {
			if ws, ok := ee.Sys().(syscall.WaitStatus); ok {
				p.killed = ws.Signaled() && ws.Signal() == syscall.SIGKILL
			}
		}
	}
	return p
}

func clipFile(path string, n int) string {
	b, _ := os.ReadFile(path)
	if len(b) > n {
		b = append(append(append([]byte(nil), b[:n/2]...), "\n[...]\n"...), b[len(b)-n/2:]...)
	}
	return string(b)
}

func gogc(b *Build) string {
	if b.Race {
		return "off"
	}
	return "100"
}
