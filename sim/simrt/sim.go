// Package simrt is the runtime under simulated code. Inside one testing/synctest
// bubble (fake clock, quiescence detection) a scheduler in the bubble's root
// goroutine decides which task runs next at every lock, network operation,
// goroutine start and, with some probability, before any statement.
package simrt

import (
	"container/heap"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"net"
	"runtime"
	"runtime/debug"
	"sort"
	"sync"
	"testing/synctest"
	"time"
	"unsafe"
)

func getg() uintptr

type pointKind int

const (
	pkLock pointKind = iota
	pkUnlock
	pkNet
	pkGo
)

const (
	stReady = iota
	stRunning
	stBlocked
	stExternal
	stDone
)

// Task is one simulated thread of control.
type Task struct {
	ctx       uintptr // race context
	ID        int
	Name      string
	Anon      bool
	Lib       bool // started by the code under test
	g         uintptr
	wake      chan struct{}
	state     int
	pred      func() bool
	reason    string
	deadline  time.Duration // -1: none
	notBefore time.Duration
	timedOut  bool
	dying     bool
	prio      uint64
	site      int
	raceSem   byte
	Data      interface{}
}

func (t *Task) Done() bool     { return t.state == stDone }
func (t *Task) Reason() string { return t.reason }
func (t *Task) StateString() string {
	switch t.state {
	case stReady:
		return "ready"
	case stRunning:
		return "running"
	case stBlocked:
		return "blocked:" + t.reason
	case stExternal:
		return "waiting"
	}
	return "done"
}

type event struct {
	at  time.Duration
	seq uint64
	fn  func()
}
type evHeap []*event

func (h evHeap) Len() int { return len(h) }
func (h evHeap) Less(i, j int) bool {
	return h[i].at < h[j].at || h[i].at == h[j].at && h[i].seq < h[j].seq
}
func (h evHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
func (h *evHeap) Push(x interface{}) { *h = append(*h, x.(*event)) }
func (h *evHeap) Pop() interface{} {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

// Schedule says how scheduling decisions are made.
type Schedule struct {
	Strategy string  `json:"strategy"` // seq, random, pct, explicit
	Seed     uint64  `json:"seed"`
	PStmt    float64 `json:"p_stmt,omitempty"` // preemption probability before a statement
	PSync    float64 `json:"p_sync,omitempty"` // at a lock/network/start operation
	PStall   float64 `json:"p_stall,omitempty"`
	StallMax int64   `json:"stall_max_ms,omitempty"`
	Depth    int     `json:"depth,omitempty"` // pct change points

	Preempt []uint64         `json:"preempt,omitempty"` // explicit: yield counts at which to preempt
	Choice  map[uint64]int   `json:"choice,omitempty"`  // explicit: decision -> task id (others: default)
	Stall   map[uint64]int64 `json:"stall,omitempty"`   // explicit: decision -> stall in us of the task that was running
}

type PanicRec struct {
	Task  string
	Value string
	Stack string
	Lib   bool
}

// Network is what instrumented dial calls reach.
type Network interface {
	Dial(network, addr string, deadline time.Duration, cancelled func() error) (net.Conn, error)
}

type Sim struct {
	epoch   uint64
	Sched   Schedule
	LibRNG  *RNG // randomness drawn by the code under test
	srng    *RNG
	Net     Network
	start   time.Time
	mu      sync.Mutex
	tasks   []*Task
	byG     map[uintptr]*Task
	runG    uintptr
	running *Task
	last    *Task
	rootG   uintptr
	events  evHeap
	evSeq   uint64
	notify  chan struct{}
	nid     int

	killed   bool
	fatal    string
	Livelock bool
	Panics   []PanicRec

	y        uint64 // yields so far
	nextPre  uint64 // min(wantPre, maxY)
	wantPre  uint64
	window   uint64 // statements without progress that make a livelock
	maxY     uint64
	preIdx   int
	decision uint64
	changeAt []uint64

	// recorded deviations from the default schedule
	RecPreempt []uint64
	RecChoice  map[uint64]int
	RecStall   map[uint64]int64

	Switches  uint64
	Events    uint64
	ilHash    uint64
	Probes    map[string]int
	TraceFn   func(string)
	IdleHook  func()
	ExtraWake func() time.Duration
}

var cur *Sim
var epochCtr uint64

// Current is the running simulation, or nil.
func Current() *Sim { return cur }

func New(sched Schedule, libSeed uint64, maxY uint64) *Sim {
	epochCtr++
	s := &Sim{epoch: epochCtr, Sched: sched, LibRNG: NewRNG(libSeed), srng: NewRNG(Mix(sched.Seed ^ 0xabcdef)),
		start: time.Now(), byG: map[uintptr]*Task{}, notify: make(chan struct{}, 1), maxY: maxY, window: maxY,
		RecChoice: map[uint64]int{}, RecStall: map[uint64]int64{}, Probes: map[string]int{}}
	s.rootG = getg()
	if sched.Strategy == "pct" {
		n := sched.Depth
		for i := 0; i < n; i++ {
			// change points are spread log-uniformly: runs differ hugely in length
			span := uint64(1) << uint(6+s.srng.Intn(12))
			s.changeAt = append(s.changeAt, s.srng.Uint64()%span)
		}
		sort.Slice(s.changeAt, func(i, j int) bool { return s.changeAt[i] < s.changeAt[j] })
	}
	s.setNextPre()
	cur = s
	return s
}

func (s *Sim) Now() time.Duration { return time.Since(s.start) }
func (s *Sim) Yields() uint64     { return s.y }
func (s *Sim) Interleaving() uint64 {
	return s.ilHash
}
func (s *Sim) dead() bool { return s.killed }
func (s *Sim) Probe(n string) {
	if RaceBuild {
		defer hOut(hIn())
	}
	s.Probes[n]++
}
func (s *Sim) newID() int { s.nid++; return s.nid }

func (s *Sim) trace(f string, a ...interface{}) {
	if s.TraceFn != nil {
		s.TraceFn(fmt.Sprintf(f, a...))
	}
}

// After schedules fn to run in the root goroutine at now+d.
func (s *Sim) After(d time.Duration, fn func()) {
	if d < 0 {
		d = 0
	}
	s.At(s.Now()+d, fn)
}
func (s *Sim) At(t time.Duration, fn func()) {
	if RaceBuild {
		defer hOut(hIn())
	}
	s.evSeq++
	heap.Push(&s.events, &event{t, s.evSeq, fn})
}

// ---- entry points from instrumented code

// Hit has the statements (by site) that were executed in this process.
var Hit [1 << 14]byte

// Y is inserted before every statement.
func Y(site int) {
	s := cur
	if s == nil {
		return
	}
	if site < len(Hit) {
		Hit[site] = 1
	}
	g := getg()
	if g == s.runG {
		s.y++
		if s.y < s.nextPre {
			return
		}
		s.ySlow(site)
		return
	}
	s.foreign(g, site)
}

func (s *Sim) ySlow(site int) {
	if RaceBuild {
		defer hOut(hIn())
	}
	t := s.running
	if s.killed {
		s.exitIfKilled(t)
		return
	}
	if s.y >= s.maxY {
		s.Livelock = true
		t.site = site
		s.park(t, stBlocked, "livelock")
		return
	}
	if s.y < s.wantPre {
		s.nextPre = min(s.wantPre, s.maxY)
		return
	}
	if s.Sched.Strategy == "explicit" {
		s.preIdx++
	}
	s.setNextPre()
	t.site = site
	s.RecPreempt = append(s.RecPreempt, s.y)
	if s.Sched.Strategy == "pct" {
		t.prio = uint64(s.Switches) // lower than any fresh priority
	}
	s.park(t, stReady, "preempt")
}

const noPre = ^uint64(0)

// hardY bounds a whole run, progress or not.
const hardY = 1 << 31

// Progress is told that time went by or bytes were moved.
func (s *Sim) Progress() {
	s.maxY = min(s.y+s.window, hardY)
}

func (s *Sim) setNextPre() {
	n := uint64(noPre)
	switch s.Sched.Strategy {
	case "explicit":
		if s.preIdx < len(s.Sched.Preempt) {
			n = s.Sched.Preempt[s.preIdx]
			if n <= s.y {
				// passed by a recorded sync point
				for s.preIdx < len(s.Sched.Preempt) && s.Sched.Preempt[s.preIdx] <= s.y {
					s.preIdx++
				}
				n = noPre
				if s.preIdx < len(s.Sched.Preempt) {
					n = s.Sched.Preempt[s.preIdx]
				}
			}
		}
	case "pct":
		for len(s.changeAt) > 0 && s.changeAt[0] <= s.y {
			s.changeAt = s.changeAt[1:]
		}
		if len(s.changeAt) > 0 {
			n = s.changeAt[0]
		}
	case "random":
		if p := s.Sched.PStmt; p > 0 {
			// geometric
			k := uint64(1)
			for k < 100000 && !s.srng.Chance(p) {
				k++
			}
			n = s.y + k
		}
	}
	s.wantPre = n
	s.nextPre = min(n, s.maxY)
}

// enter is called at every synchronisation operation.
func enter(k pointKind) *Sim {
	s := cur
	if s == nil {
		return nil
	}
	g := getg()
	if g != s.runG {
		if g == s.rootG {
			return s
		}
		s.foreign(g, -1)
		if cur != s {
			return cur
		}
	}
	t := s.running
	if s.killed {
		s.exitIfKilled(t)
		return s
	}
	s.y++
	if s.y >= s.maxY {
		s.ySlow(-1)
		return s
	}
	pre := false
	switch s.Sched.Strategy {
	case "explicit":
		pre = s.y >= s.wantPre
	case "random":
		pre = s.y >= s.wantPre || s.srng.Chance(s.Sched.PSync)
	case "pct":
		pre = s.y >= s.wantPre
	}
	if pre {
		if s.Sched.Strategy == "explicit" {
			s.preIdx++
		}
		if s.y >= s.wantPre {
			s.setNextPre()
			if s.Sched.Strategy == "pct" {
				t.prio = uint64(s.Switches)
			}
		}
		t.site = -2 - int(k)
		s.preempt(t)
	}
	return s
}

func (s *Sim) preempt(t *Task) {
	if RaceBuild {
		defer hOut(hIn())
	}
	s.RecPreempt = append(s.RecPreempt, s.y)
	s.park(t, stReady, "sync")
}

// enterQuiet identifies the task without being a preemption point.
func enterQuiet() *Sim {
	s := cur
	if s == nil {
		return nil
	}
	g := getg()
	if g != s.runG && g != s.rootG {
		s.foreign(g, -1)
	}
	return s
}

// foreign handles a goroutine that was not given the right to run: it became
// runnable through a channel, timer or similar, and now waits its turn.
func (s *Sim) foreign(g uintptr, site int) {
	if RaceBuild {
		defer hOut(hIn())
	}
	if g == s.rootG {
		return
	}
	s.mu.Lock()
	t := s.byG[g]
	if t == nil {
		t = &Task{ID: 1000000 + s.newID(), Name: "anon", Anon: true, Lib: true, g: g, wake: make(chan struct{}, 1), deadline: -1, prio: s.srng.Uint64() | 1<<62}
		s.byG[g] = t
		s.tasks = append(s.tasks, t)
	}
	s.mu.Unlock()
	t.site = site
	s.park(t, stReady, "woken")
}

func (s *Sim) exitIfKilled(t *Task) {
	if t != nil && !t.dying {
		t.dying = true
		runtime.Goexit()
	}
}

func (s *Sim) park(t *Task, state int, reason string) {
	if RaceBuild {
		defer hOut(hIn())
	}
	t.reason = reason
	t.state = state
	raceDisable()
	select {
	case s.notify <- struct{}{}:
	default:
	}
	<-t.wake
	raceEnable()
	if s.killed {
		s.exitIfKilled(t)
	}
}

// Block suspends the calling task until pred holds or the simulated time
// reaches deadline (-1: never). It reports false if the deadline passed first.
func (s *Sim) Block(reason string, pred func() bool, deadline time.Duration) bool {
	if RaceBuild {
		defer hOut(hIn())
	}
	if s.killed {
		s.exitIfKilled(s.running)
		return false
	}
	t := s.running
	if t == nil || t.g != getg() {
		panic("simrt: Block outside a task")
	}
	t.pred = pred
	t.deadline = deadline
	t.timedOut = false
	s.park(t, stBlocked, reason)
	t.pred = nil
	t.deadline = -1
	return !t.timedOut
}

// Sleep suspends the calling harness task.
func (s *Sim) Sleep(d time.Duration) {
	s.Block("sleep", func() bool { return false }, s.Now()+d)
}

// Point is a preemption point for harness-supplied operations (network).
func (s *Sim) Point() { enter(pkNet) }

// Fatal records what would have been an unrecoverable runtime error.
func (s *Sim) Fatal(msg string) {
	if RaceBuild {
		defer hOut(hIn())
	}
	if s.fatal == "" {
		s.fatal = msg
		s.Panics = append(s.Panics, PanicRec{Task: s.taskName(), Value: "fatal error: " + msg, Stack: string(debug.Stack()), Lib: true})
	}
	panic("fatal error: " + msg)
}

func (s *Sim) taskName() string {
	if s.running != nil {
		return s.running.Name
	}
	return "?"
}

func (s *Sim) Running() *Task { return s.running }

// ---- task creation

// Go replaces the go statement in instrumented code.
func Go(site int, fn func()) {
	s := cur
	if s == nil {
		go fn()
		return
	}
	enterQuiet()
	if s.killed {
		return
	}
	s.startLib(site, fn)
	enter(pkGo)
}

func (s *Sim) startLib(site int, fn func()) {
	sem := new(byte)
	raceRelease(unsafe.Pointer(sem))
	if RaceBuild {
		defer hOut(hIn())
	}
	s.start1(fmt.Sprintf("lib%d", site), true, func() {
		raceAcquire(unsafe.Pointer(sem))
		fn()
	})
}

// InLib runs f, which calls the code under test, from harness code.
func (s *Sim) InLib(f func()) {
	if RaceBuild && s.running != nil && s.running.ctx != 0 {
		c := hIn()
		hOut(s.running.ctx)
		defer hOut(c)
	}
	f()
}

// rootSem orders what happened before the run, such as initialisation.
var rootSem byte

// EnterHarness marks the calling goroutine as the harness's own.
func EnterHarness() func() {
	raceRelMerge(unsafe.Pointer(&rootSem))
	c := hIn()
	return func() { hOut(c) }
}

// Publish and Observe order what the caller did before handing something to
// another task, as any means of handing it over would.
func (s *Sim) Publish(p *byte) { s.InLib(func() { raceRelMerge(unsafe.Pointer(p)) }) }
func (s *Sim) Observe(p *byte) { s.InLib(func() { raceAcquire(unsafe.Pointer(p)) }) }

// Spawn starts a harness task.
func (s *Sim) Spawn(name string, fn func()) *Task { return s.start1(name, false, fn) }

func (s *Sim) start1(name string, lib bool, fn func()) *Task {
	t := &Task{ID: s.newID(), Name: name, Lib: lib, wake: make(chan struct{}, 1), state: stReady, deadline: -1, prio: s.srng.Uint64() | 1<<62, reason: "start"}
	if lib && s.running != nil {
		t.Data = s.running.Data
	}
	s.mu.Lock()
	s.tasks = append(s.tasks, t)
	s.mu.Unlock()
	ready := make(chan struct{})
	go func() {
		if RaceBuild {
			raceAcquire(unsafe.Pointer(&rootSem))
			t.ctx = hIn()
			defer hOut(t.ctx)
		}
		raceDisable()
		t.g = getg()
		s.mu.Lock()
		s.byG[t.g] = t
		s.mu.Unlock()
		close(ready)
		<-t.wake
		raceEnable()
		defer s.finish(t)
		if s.killed {
			t.dying = true
			return
		}
		if lib {
			s.InLib(fn)
			return
		}
		fn()
	}()
	raceDisable()
	<-ready
	raceEnable()
	return t
}

func (s *Sim) adopt(id int, name string, fn func()) {
	if cur != s || s.killed {
		return
	}
	c := hIn()
	defer hOut(c)
	t := &Task{ID: id, Name: name, Lib: true, wake: make(chan struct{}, 1), g: getg(), ctx: c, deadline: -1, prio: s.srng.Uint64() | 1<<62}
	s.mu.Lock()
	s.tasks = append(s.tasks, t)
	s.byG[t.g] = t
	s.mu.Unlock()
	defer s.finish(t)
	s.park(t, stReady, "timer")
	s.InLib(fn)
}

func (s *Sim) finish(t *Task) {
	if r := recover(); r != nil {
		if !t.dying {
			st := string(debug.Stack())
			s.Panics = append(s.Panics, PanicRec{Task: t.Name, Value: fmt.Sprint(r), Stack: st, Lib: t.Lib})
		}
	}
	raceDisable()
	s.mu.Lock()
	t.state = stDone
	delete(s.byG, t.g)
	s.mu.Unlock()
	select {
	case s.notify <- struct{}{}:
	default:
	}
	raceEnable()
}

// ---- the loop

type Outcome int

const (
	OutDone Outcome = iota
	OutHorizon
	OutStuck
	OutLivelock
	OutFatal
)

func (o Outcome) String() string {
	return [...]string{"done", "horizon", "stuck", "livelock", "fatal"}[o]
}

// Loop runs the simulation until done() or the simulated time passes horizon.
func (s *Sim) Loop(done func() bool, horizon time.Duration) Outcome {
	for {
		s.quiesce()
		s.runDue()
		if s.Livelock {
			return OutLivelock
		}
		if s.fatal != "" {
			return OutFatal
		}
		if done() {
			return OutDone
		}
		now := s.Now()
		c, next := s.candidates(now)
		if len(c) == 0 {
			if len(s.events) > 0 && (next < 0 || s.events[0].at < next) {
				next = s.events[0].at
			}
			target := horizon
			if next >= 0 && next < horizon {
				target = next
			}
			if target <= now {
				if now >= horizon {
					return OutHorizon
				}
				continue
			}
			s.wait(target - now)
			s.Progress()
			if s.Now() >= horizon {
				s.quiesce()
				c, _ := s.candidates(s.Now())
				if len(c) == 0 && !(len(s.events) > 0 && s.events[0].at <= s.Now()) {
					if done() {
						return OutDone
					}
					return OutHorizon
				}
			}
			continue
		}
		if now > horizon {
			return OutHorizon
		}
		s.run1(s.choose(c, now))
	}
}

func (s *Sim) quiesce() {
	raceDisable()
	synctest.Wait()
	raceEnable()
}

func (s *Sim) wait(d time.Duration) {
	raceDisable()
	tm := time.NewTimer(d)
	select {
	case <-tm.C:
	case <-s.notify:
		tm.Stop()
	}
	raceEnable()
}

func (s *Sim) runDue() {
	for len(s.events) > 0 && s.events[0].at <= s.Now() {
		e := heap.Pop(&s.events).(*event)
		s.Events++
		e.fn()
		s.quiesce()
	}
}

func (s *Sim) candidates(now time.Duration) ([]*Task, time.Duration) {
	next := time.Duration(-1)
	var c []*Task
	s.mu.Lock()
	ts := s.tasks
	// forget finished tasks
	j := 0
	for _, t := range ts {
		if t.state != stDone {
			ts[j] = t
			j++
		}
	}
	for k := j; k < len(ts); k++ {
		ts[k] = nil
	}
	s.tasks = ts[:j]
	ts = s.tasks
	s.mu.Unlock()
	for _, t := range ts {
		ok := false
		at := time.Duration(-1)
		switch t.state {
		case stReady:
			ok = true
		case stBlocked:
			if t.pred != nil && t.pred() {
				ok = true
				t.timedOut = false
			} else if t.deadline >= 0 {
				if now >= t.deadline {
					ok = true
					t.timedOut = true
				} else {
					at = t.deadline
				}
			}
		}
		if ok && t.notBefore > now {
			ok = false
			at = t.notBefore
		}
		if ok {
			c = append(c, t)
		} else if at >= 0 && (next < 0 || at < next) {
			next = at
		}
	}
	if len(c) > 1 {
		sort.Slice(c, func(i, j int) bool { return c[i].ID < c[j].ID })
	}
	return c, next
}

func (s *Sim) choose(c []*Task, now time.Duration) *Task {
	def := c[0]
	for _, t := range c {
		if t == s.last {
			def = t
		}
	}
	s.decision++
	d := s.decision
	pick := def
	switch s.Sched.Strategy {
	case "explicit":
		if us, ok := s.Sched.Stall[d]; ok && s.last != nil {
			s.last.notBefore = now + time.Duration(us)*time.Microsecond
			s.RecStall[d] = us
			// choose among the others
			var c2 []*Task
			for _, t := range c {
				if t != s.last {
					c2 = append(c2, t)
				}
			}
			if len(c2) > 0 {
				c = c2
				pick = c[0]
			}
		}
		if id, ok := s.Sched.Choice[d]; ok {
			for _, t := range c {
				if t.ID == id {
					pick = t
				}
			}
		}
	case "random":
		if s.Sched.PStall > 0 && s.last != nil && s.last.state == stReady && s.srng.Chance(s.Sched.PStall) {
			us := int64(1 + s.srng.Intn(int(s.Sched.StallMax*1000)))
			s.last.notBefore = now + time.Duration(us)*time.Microsecond
			s.RecStall[d] = us
			s.Probe("task-stalled")
			var c2 []*Task
			for _, t := range c {
				if t != s.last {
					c2 = append(c2, t)
				}
			}
			if len(c2) > 0 {
				c = c2
				def = c[0]
			}
		}
		pick = c[s.srng.Intn(len(c))]
	case "pct":
		for _, t := range c {
			if t.prio > pick.prio {
				pick = t
			}
		}
	default:
		pick = def
	}
	if len(c) > 1 && pick != def {
		s.RecChoice[d] = pick.ID
	}
	return pick
}

func (s *Sim) run1(t *Task) {
	s.ilHash = Mix(s.ilHash ^ uint64(t.ID)<<32 ^ uint64(uint32(t.site)))
	s.Switches++
	if s.TraceFn != nil {
		s.trace("run %s#%d (%s) y=%d d=%d", t.Name, t.ID, t.reason, s.y, s.decision)
	}
	raceDisable()
	s.running = t
	s.last = t
	t.state = stRunning
	s.runG = t.g
	t.wake <- struct{}{}
	synctest.Wait()
	s.runG = 0
	s.running = nil
	if t.state == stRunning {
		t.state = stExternal
		t.reason = "external"
	}
	raceEnable()
}

// Join makes everything a finished task did visible to the caller (race
// detector only), as joining a thread would.
func (s *Sim) Tasks() []*Task { return s.tasks }

// Kill ends the simulation: every parked task unwinds.
func (s *Sim) Kill() {
	s.killed = true
	for i := 0; i < 1000; i++ {
		s.quiesce()
		n := 0
		s.mu.Lock()
		ts := append([]*Task{}, s.tasks...)
		s.mu.Unlock()
		for _, t := range ts {
			if t.state == stReady || t.state == stBlocked {
				n++
				raceDisable()
				s.running = t
				s.runG = t.g
				t.state = stRunning
				t.wake <- struct{}{}
				synctest.Wait()
				s.runG = 0
				s.running = nil
				if t.state == stRunning {
					t.state = stExternal
				}
				raceEnable()
			}
		}
		if n == 0 {
			break
		}
	}
}

// Finish lets sleeping goroutines of the code under test run out.
func (s *Sim) Finish(d time.Duration) {
	raceDisable()
	defer raceEnable()
	end := time.Now().Add(d)
	for i := 0; i < 200 && time.Now().Before(end); i++ {
		synctest.Wait()
		s.mu.Lock()
		live := 0
		for _, t := range s.tasks {
			if t.state != stDone {
				live++
			}
		}
		s.mu.Unlock()
		if live == 0 {
			break
		}
		tm := time.NewTimer(time.Until(end))
		select {
		case <-tm.C:
		case <-s.notify:
			tm.Stop()
		}
		s.Kill()
	}
	cur = nil
}

// ---- dialling

var ErrNoNetwork = errors.New("simrt: no network")

func dial(network, addr string, deadline time.Duration, cancelled func() error) (net.Conn, error) {
	if RaceBuild {
		defer hOut(hIn())
	}
	s := enter(pkNet)
	if s == nil || s.Net == nil {
		return nil, ErrNoNetwork
	}
	return s.Net.Dial(network, addr, deadline, cancelled)
}

func Dial(network, addr string) (net.Conn, error) { return dial(network, addr, -1, nil) }

func DialTimeout(network, addr string, d time.Duration) (net.Conn, error) {
	dl := time.Duration(-1)
	if s := cur; s != nil && d > 0 {
		dl = s.Now() + d
	} else if s != nil && d < 0 {
		dl = s.Now()
	}
	return dial(network, addr, dl, nil)
}

type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       net.Addr
	DualStack       bool
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
	Resolver        *net.Resolver
	Cancel          <-chan struct{}
}

func (d *Dialer) deadlineAt() time.Duration {
	s := cur
	dl := time.Duration(-1)
	if s == nil {
		return dl
	}
	if d.Timeout > 0 {
		dl = s.Now() + d.Timeout
	} else if d.Timeout < 0 {
		dl = s.Now()
	}
	if !d.Deadline.IsZero() {
		x := d.Deadline.Sub(s.start)
		if x < 0 {
			x = 0
		}
		if dl < 0 || x < dl {
			dl = x
		}
	}
	return dl
}

func (d *Dialer) Dial(network, addr string) (net.Conn, error) {
	return dial(network, addr, d.deadlineAt(), nil)
}

func (d *Dialer) DialContext(ctx context.Context, network, addr string) (net.Conn, error) {
	s := cur
	dl := d.deadlineAt()
	if s != nil {
		if t, ok := ctx.Deadline(); ok {
			x := t.Sub(s.start)
			if x < 0 {
				x = 0
			}
			if dl < 0 || x < dl {
				dl = x
			}
		}
		stop := context.AfterFunc(ctx, func() {
			select {
			case s.notify <- struct{}{}:
			default:
			}
		})
		defer stop()
	}
	return dial(network, addr, dl, ctx.Err)
}

func TLSDial(network, addr string, config *tls.Config) (*tls.Conn, error) {
	return TLSDialWithDialer(new(Dialer), network, addr, config)
}

func TLSDialWithDialer(d *Dialer, network, addr string, config *tls.Config) (*tls.Conn, error) {
	return tlsDial(context.Background(), d, network, addr, config)
}

func tlsDial(ctx context.Context, d *Dialer, network, addr string, config *tls.Config) (*tls.Conn, error) {
	dl := d.deadlineAt()
	if dl >= 0 {
		var cancel context.CancelFunc
		ctx, cancel = context.WithDeadline(ctx, cur.start.Add(dl))
		defer cancel()
	}
	raw, err := d.DialContext(ctx, network, addr)
	if err != nil {
		return nil, err
	}
	host := addr
	for i := len(addr) - 1; i >= 0; i-- {
		if addr[i] == ':' {
			host = addr[:i]
			break
		}
	}
	if config == nil {
		config = &tls.Config{}
	}
	if config.ServerName == "" {
		c := config.Clone()
		c.ServerName = host
		config = c
	}
	conn := tls.Client(raw, config)
	if err := conn.HandshakeContext(ctx); err != nil {
		raw.Close()
		return nil, err
	}
	return conn, nil
}

type TLSDialer struct {
	NetDialer *Dialer
	Config    *tls.Config
}

func (d *TLSDialer) Dial(network, addr string) (net.Conn, error) {
	return d.DialContext(context.Background(), network, addr)
}
func (d *TLSDialer) DialContext(ctx context.Context, network, addr string) (net.Conn, error) {
	nd := d.NetDialer
	if nd == nil {
		nd = new(Dialer)
	}
	c, err := tlsDial(ctx, nd, network, addr, d.Config)
	if err != nil {
		return nil, err
	}
	return c, nil
}
