// Package runner drives the code under test through its public API inside a
// simulated world and judges what it observes.
package runner

import (
	"bytes"
	"fmt"
	"log"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	goBolt "github.com/mindstand/go-bolt"
	"github.com/mindstand/go-bolt/bolt_mode"
	"github.com/mindstand/go-bolt/connection"
	blog "github.com/mindstand/go-bolt/log"

	"verif.local/sim/simrt"
	"verif.local/sim/world"
)

// Result is the outcome of one run.
type Result = world.RunResult

type slot struct {
	touched  bool
	pub      byte // ordering of the open
	id       int
	cl       *world.ClientCfg
	conn     connection.IConnection
	mode     string
	open     *world.OpRun
	conns    []*world.Conn
	unasked  []*world.Conn // idle connections with unread bytes on them when it was opened
	sock     *world.Conn   // the socket behind it, once known
	txs      []*txSlot
	closed   bool
	gone     bool // reclaimed
	goneCall bool // Reclaim has been called

	giving    int // calls of Reclaim that may be giving it back
	racers    []*world.OpRun
	takenBack bool // one of them returned no error
	closing   bool // Close has been called
	closes    int
	idled     bool
	dead      bool
	deadAt    time.Duration
	asked     bool
	deadOp    int // last call begun before then
	deadWhy   string
	failed    bool // opening failed
	timeout   time.Duration
	ver       int
	shared    bool
	served    int
}

type txSlot struct {
	id     int
	s      *slot
	tx     connection.ITransaction
	db     string
	srv    *world.Tx
	ended  string
	how    string // commit, rollback: outcome reported to the caller
	commit bool   // Commit was called while the transaction was live
	tags   []int
	okTags []int
	enders int  // Commit and Rollback calls
	foggy  bool // whether it is still open is for the handle to say
}

// Run is one simulated run.
type Run struct {
	kept []kept
	sc   *world.Scenario
	w    *world.World
	s    *simrt.Sim
	dir  string
	cli  goBolt.IClient
	drv  goBolt.IDriver
	drvs []goBolt.IDriver // of the other clients
	pool goBolt.IDriverPool

	slots map[int]*slot
	txs   map[int]*txSlot
	all   []*slot
	allTx []*txSlot
	ops   []*world.OpRun
	tasks []*simrt.Task

	pub     byte // ordering of the setup
	fin     byte // ordering of finished tasks
	ready   bool
	setupOK bool
	aborted bool
	done    bool
	epi     bool

	closing  bool
	closeOK  bool
	closeAt  time.Duration // when Close returned nil
	closeOp  time.Duration // when Close was called
	holders  map[string]int
	used     map[string]int // including Reclaim in progress
	pending  map[string]int
	fullAt   map[string]time.Duration // last time the mode had no free slot
	avail    time.Duration
	okCalls  int
	badCalls int
	newOp    *world.OpRun
	goodbye  []*world.Conn
	probes   int
	reported map[string]bool
	okAuto   []int // statements outside transactions that returned success
}

const never = time.Duration(-1)

// MarkRaces, if set, returns the data races found so far. What happens when
// the remaining tasks are unwound does not count.
var MarkRaces func() []world.Violation

// swallow takes what the library logs; it is not io.Discard, for which a
// logger would not even format its arguments.
type swallow struct{}

func (swallow) Write(p []byte) (int, error) { return len(p), nil }

func init() { quiet() }

func quiet() {
	for _, l := range []*log.Logger{blog.ErrorLog, blog.InfoLog, blog.TraceLog, blog.TraceBytesLog} {
		l.SetOutput(swallow{})
	}
}

// Execute runs a scenario. It must be called inside a synctest bubble.
func Execute(sc *world.Scenario, dir string, keepLog bool) (res *Result) {
	defer simrt.EnterHarness()()
	if MarkRaces == nil { // which would see a race with what the run before left behind
		simrt.ResetGlobals()
		quiet()
	}
	s := simrt.New(sc.Sched, simrt.Mix(sc.Seed^0x11B), maxY(sc))
	w := world.New(s, sc)
	w.KeepLog = keepLog
	if keepLog && os.Getenv("SIM_TRACE") != "" {
		s.TraceFn = func(x string) { w.Logf("  sched %s", x) }
	}
	if MarkRaces == nil { // the level is not meant to be changed while the library is in use
		blog.SetLevel(sc.Client.Log)
	}
	r := &Run{sc: sc, w: w, s: s, dir: dir, slots: map[int]*slot{}, txs: map[int]*txSlot{}, holders: map[string]int{}, used: map[string]int{},
		pending: map[string]int{}, fullAt: map[string]time.Duration{}, avail: never, reported: map[string]bool{}}
	w.OnDial = r.onDial
	w.OnClose = r.onClose
	w.OnExec = r.onExec
	w.OnTouch = r.onTouch
	setup := s.Spawn("setup", r.setup)
	r.tasks = append(r.tasks, setup)
	for i, tc := range sc.Tasks {
		i, tc := i, tc
		r.tasks = append(r.tasks, s.Spawn("t"+fmt.Sprint(i)+":"+tc.Name, func() { r.task(i, tc) }))
	}
	hz := sc.Horizon
	if hz <= 0 {
		hz = 20000000
	}
	allDone := func() bool {
		if r.aborted || len(s.Panics) > 0 {
			return true
		}
		for _, t := range r.tasks {
			if !t.Done() {
				return false
			}
		}
		return true
	}
	out := s.Loop(allDone, time.Duration(hz)*time.Millisecond)
	if out == simrt.OutDone && !r.aborted && len(s.Panics) == 0 && r.setupOK {
		e := s.Spawn("epilogue", r.epilogue)
		r.tasks = append(r.tasks, e)
		out = s.Loop(func() bool { return r.aborted || len(s.Panics) > 0 || r.done }, s.Now()+time.Duration(hz)*time.Millisecond)
	}
	simEnd := s.Now()
	r.judge(out)
	res = &Result{Name: sc.Name, Outcome: out.String(), SimMs: int64(simEnd / time.Millisecond), Violations: w.Violations, Faults: w.Faults,
		Digest: w.Digest(), Inter: s.Interleaving(), Yields: s.Yields(), Switches: s.Switches, Requests: w.Requests, Conns: w.Established,
		Calls: len(r.ops), OK: r.okCalls, Failed: r.badCalls, Commits: w.CommitSeq}
	if MarkRaces != nil {
		res.Violations = append(res.Violations, MarkRaces()...)
	}
	s.Kill()
	s.Finish(400 * time.Second)
	res.Probes = s.Probes
	res.Log = w.Log
	if len(w.Violations) > 0 || keepLog {
		res.Preempt, res.Choice, res.Stall = s.RecPreempt, s.RecChoice, s.RecStall
	}
	return res
}

func maxY(sc *world.Scenario) uint64 {
	if sc.MaxY > 0 {
		return sc.MaxY
	}
	return 20000000
}

func (r *Run) now() time.Duration { return r.s.Now() }

func (r *Run) violate(class, f string, a ...interface{}) { r.w.Violate(class, fmt.Sprintf(f, a...)) }

// ---- hooks

func (r *Run) onDial(addr string) {
	if t := r.s.Running(); t != nil {
		if op, _ := t.Data.(*world.OpRun); op != nil {
			op.Dials++
		}
	}
	if !r.closeOK {
		return
	}
	if t := r.s.Running(); t != nil {
		if op, _ := t.Data.(*world.OpRun); op != nil && op.Op.Op == "foreign" {
			return
		}
	}
	t := r.s.Running()
	if t != nil {
		if op, ok := t.Data.(*world.OpRun); ok && op != nil && !op.Returned && op.Start < r.closeAt {
			return // a call that overlapped Close
		}
	}
	r.violate("close-not-final", "a connection to %s was attempted %v after Close of the pool had returned", addr, r.now()-r.closeAt)
}

func (r *Run) onClose(c *world.Conn) {
	if dead, _ := c.SessionDead(); dead || !c.Authed() || c.Taint != "" || c.BadData || c.Version() < 3 || c.ResetFailed() {
		return
	}
	if n := len(c.Failures); n > 0 && c.Failures[n-1].Event == "rollback" && c.LastOp != nil && c.Failures[n-1].At >= c.LastOp.Start {
		return // Close could not roll back
	}
	if c.LastOp != nil {
		if s, _ := c.LastOp.Data.(*slot); s != nil && s.timeout > 0 && s.timeout < time.Duration(s.cl.Timeout())*time.Millisecond {
			return // the borrower asked it to be impatient
		}
	}
	if !c.Srv.Healthy() || len(c.Failures) > 0 && c.State() == "DEFUNCT" || c.Unread() > 0 {
		return
	}
	r.goodbye = append(r.goodbye, c)
}

func (r *Run) onTouch(c *world.Conn, op *world.OpRun) {
	s, _ := op.Data.(*slot)
	if s == nil {
		return
	}
	if c.Foreign {
		r.violate("double-holder", "the pool handed out connection %d to %s, which it was offered but had never lent", c.ID, c.Addr)
		return
	}
	add(&s.conns, c)
	if op.Op.Op == "open" || s.goneCall && !op.Again {
		return
	}
	if o, _ := c.Owner.(*slot); o != nil && o != s && !o.goneCall && !o.closed && !o.dead {
		r.violate("double-holder", "connection %d to %s was handed out to two borrowers at the same time (slots %d and %d)", c.ID, c.Addr, o.id, s.id)
		return
	}
	if op.Again {
		return
	}
	if c.Owner != interface{}(s) {
		c.NewHolder()
	}
	c.Owner = s
	if r.pool != nil && !s.touched {
		s.touched = true
		if c.UnaskedAt > 0 && c.UnaskedAt < s.open.Start && has(s.unasked, c) && c.Unread() > 0 {
			r.violate("unclean", "the pool handed out connection %d with unread bytes on it that had arrived while it was idle", c.ID)
		}
		if c.PeerClosedBefore(s.open.Start) {
			r.violate("unclean", "the pool handed out connection %d, which the server had closed before Open was called", c.ID)
		}
	}
}

func has(l []*world.Conn, c *world.Conn) bool {
	for _, x := range l {
		if x == c {
			return true
		}
	}
	return false
}

func add(l *[]*world.Conn, c *world.Conn) {
	for _, x := range *l {
		if x == c {
			return
		}
	}
	*l = append(*l, c)
}

func (r *Run) onExec(ex *world.Exec, is *world.Issued) {
	op, _ := is.Op.(*world.OpRun)
	if op == nil {
		return
	}
	s, _ := op.Data.(*slot)
	if s == nil {
		return
	}
	if s.sock == nil {
		s.sock = ex.Conn
		if r.pool != nil {
			r.firstUse(s, ex)
		}
	}
	if !is.InTx && ex.Tx != nil {
		c := "atomicity"
		if s.served == 0 && r.pool != nil && len(s.txs) == 0 {
			c = "unclean"
		}
		r.violate(c, "statement %d was issued outside any transaction but ran inside server transaction %d", ex.Tag, ex.Tx.ID)
	}
	if is.InTx && ex.Tx == nil {
		r.violate("atomicity", "statement %d was issued on a transaction but ran outside any transaction", ex.Tag)
	}
	if s.mode == "w" && ex.Mode == "r" {
		r.violate("proto", "statement %d was issued on a connection opened for writing but declared read only", ex.Tag)
	}
	s.served++
	if r.w.HasBytesAhead(ex.Conn) && s.served == 1 && r.pool != nil {
		r.violate("unclean", "connection %d was handed out with unread reply bytes on it", ex.Conn.ID)
	}
}

// firstUse judges a connection a pool handed out once it is known which one it is.
func (r *Run) firstUse(s *slot, ex *world.Exec) {
	c := ex.Conn
	if r.sc.Client.Kind == "routed" {
		r.routeCheck(s, c)
	}
}

const refresh = 120 * time.Second

func (r *Run) grace() time.Duration {
	return 20*time.Second + 4*time.Duration(r.sc.Client.Timeout())*time.Millisecond
}

func (r *Run) routeCheck(s *slot, c *world.Conn) {
	write := s.mode == "w"
	start, end := s.open.Start, s.open.End
	if r.sc.NoTiming {
		return
	}
	from := start - r.grace()
	if from < 0 {
		from = 0
	}
	ok, any := r.w.AllowedFor(write, from, end)
	what := "reading"
	if write {
		what = "writing"
	}
	if any && !ok[c.Srv.Addr] {
		r.violate("routing-wrong", "a connection for %s goes to %s, which no topology report in force names for that (allowed: %s)", what, c.Srv.Addr, keys(ok))
		return
	}
	last := time.Duration(0)
	for _, t := range r.w.TopoChange {
		last = t
	}
	lim := refresh + r.grace()
	if start-last > lim && !r.w.UnhealthyDuring(-1, start-lim, end) && !r.w.TaintedDuring(start-lim, end) && start-r.w.LastFault > lim {
		role := c.Srv.Role
		if write && role != "leader" || !write && role != "follower" && role != "read_replica" {
			r.violate("routing-wrong", "a connection for %s goes to %s, whose role has been %q since %v ago", what, c.Srv.Addr, role, start-last)
		}
	}
	r.s.Probe("routed-use-" + s.mode)
}

func keys(m map[string]bool) string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return strings.Join(k, ",")
}

// ---- calls

func (r *Run) begin(task, idx int, o *world.Op, s *slot) *world.OpRun {
	op := &world.OpRun{Task: task, Idx: idx, Op: o, Start: r.now(), ID: len(r.ops) + 1}
	if s != nil {
		op.Data = s
	}
	r.ops = append(r.ops, op)
	return op
}

// call runs one API call; it reports false if the call panicked.
func (r *Run) call(op *world.OpRun, fn func()) (ok bool) {
	t := r.s.Running()
	prev := t.Data
	t.Data = op
	op.Start = r.now()
	r.w.Note("call", fmt.Sprintf("#%d task=%d %s c=%d t=%d", op.ID, op.Task, op.Op.Op, op.Op.C, op.Op.T))
	defer func() {
		t.Data = prev
		if ok {
			return
		}
		if p := recover(); p != nil {
			r.aborted = true
			op.Returned = true
			op.End = r.now()
			r.violate("panic", "%s panicked: %v\n%s", op.Op.Op, p, trimStack(string(debug.Stack())))
		}
	}()
	r.s.Observe(&r.pub)
	if sl, _ := op.Data.(*slot); sl != nil {
		r.s.Observe(&sl.pub)
	}
	r.s.InLib(fn)
	if sl, _ := op.Data.(*slot); sl != nil && (op.Op.Op == "open" || op.Op.Op == "begin") {
		r.s.Publish(&sl.pub)
	}
	op.End = r.now()
	op.Returned = true
	t.Data = prev
	ok = true
	r.w.Note("return", fmt.Sprintf("#%d", op.ID))
	r.duration(op, true)
	return true
}

func trimStack(s string) string {
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "go-bolt") || strings.Contains(l, "commons-pool") {
			keep = append(keep, strings.TrimSpace(l))
		}
		if len(keep) > 14 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

func (r *Run) timeoutFor(op *world.OpRun) time.Duration {
	cl := &r.sc.Client
	if s, _ := op.Data.(*slot); s != nil {
		cl = s.cl
	}
	d := time.Duration(cl.Timeout()) * time.Millisecond
	if s, _ := op.Data.(*slot); s != nil && s.timeout > 0 {
		if op.Op.Op != "reclaim" || s.timeout > d {
			d = s.timeout
		}
	}
	return d
}

// duration checks that a call did not wait too long for a silent peer.
func (r *Run) duration(op *world.OpRun, returned bool) bool {
	if r.sc.NoTiming {
		return false
	}
	from := op.Start
	tainted := false
	for _, c := range op.Touched {
		if c.Progress > from {
			from = c.Progress
		}
		tainted = tainted || c.Taint != ""
	}
	if s, _ := op.Data.(*slot); s != nil {
		for _, c := range s.conns { // it may have waited for another call on the connection
			if c.Progress > from {
				from = c.Progress
			}
		}
	}
	if op.Op.Op == "open" && r.pool != nil {
		if f, ok := r.fullAt[r.modeKey(op.Op.Mode)]; ok && f > from {
			from = f
		}
		if r.pool != nil && r.sc.Client.Kind == "pool" && f0(r.fullAt, "") > op.Start {
			return false // had to wait its turn: see the capacity check
		}
	}
	lim := 12*r.timeoutFor(op) + 2*time.Second
	end := op.End
	if !returned {
		end = r.now()
	}
	if end-from > lim {
		r.violate("timeout", "%s took %v after the peer fell silent (timeout %v)", op.Op.Op, end-from, r.timeoutFor(op))
		return true
	}
	if tainted && end-from > r.timeoutFor(op)/2 && returned {
		r.s.Probe("waited-for-silent-peer")
	}
	return false
}

func f0(m map[string]time.Duration, k string) time.Duration {
	if v, ok := m[k]; ok {
		return v
	}
	return -1
}

func (r *Run) count(err error) {
	if err == nil {
		r.okCalls++
	} else {
		r.badCalls++
	}
}

// tainted: a transport fault has hit a connection this call depends on.
func (r *Run) tainted(s *slot, op *world.OpRun) (string, *world.Conn) {
	for _, c := range op.Touched {
		if c.Taint != "" {
			return c.Taint, c
		}
	}
	if s != nil {
		for _, c := range s.conns {
			if c.Taint != "" && (s.sock == nil || s.sock == c || c.Owner == interface{}(s)) {
				return c.Taint, c
			}
		}
	}
	return "", nil
}

func (r *Run) setup() {
	defer func() {
		r.s.Publish(&r.pub)
		r.ready = true
	}()
	cl := &r.sc.Client
	if cl.Wrong != "" {
		r.wrongConfig()
		return
	}
	opts := r.options(cl)
	late := cl.Split>>9&1 == 1
	if late && !r.others() {
		return
	}
	op := r.begin(-1, 0, &world.Op{Op: "new"}, nil)
	r.newOp = op
	var err error
	if !r.call(op, func() {
		r.cli, err = goBolt.NewClient(opts...)
		if err != nil {
			return
		}
		switch cl.Kind {
		case "driver":
			r.drv, err = r.cli.NewDriver()
		default:
			var p goBolt.IDriverPool
			p, err = r.cli.NewDriverPool(cl.Size)
			if err == nil {
				r.pool = p
			}
		}
	}) {
		return
	}
	r.count(err)
	r.setupOK = true
	if err != nil {
		r.drv, r.pool = nil, nil
		t, _ := r.tainted(nil, op)
		if t == "" && !r.w.UnhealthyDuring(-1, op.Start, op.End) && !r.w.TaintedDuring(op.Start, op.End) && r.tlsOK(&r.sc.Client) && len(op.Failures) == 0 && r.w.RolesComplete() && r.w.Faults["overview-malformed"] == 0 {
			r.violate("spurious", "creating the client or pool failed although nothing was wrong: %s", first(err))
		}
	}
	if !late && !r.aborted {
		r.others()
	}
}

// others creates the scenario's other clients.
func (r *Run) others() bool {
	for _, cl := range r.sc.Others {
		opts := r.options(cl)
		op := r.begin(-1, 0, &world.Op{Op: "new"}, nil)
		var d goBolt.IDriver
		var err error
		if !r.call(op, func() {
			var cli goBolt.IClient
			if cli, err = goBolt.NewClient(opts...); err == nil {
				d, err = cli.NewDriver()
			}
		}) {
			return false
		}
		r.count(err)
		if err != nil {
			r.violate("spurious", "creating a second client failed although nothing was wrong: %s", first(err))
			return false
		}
		r.drvs = append(r.drvs, d)
	}
	return true
}

// tlsOK: the TLS settings and the servers' certificates allow a connection.
func (r *Run) tlsOK(cl *world.ClientCfg) bool {
	for i, s := range r.sc.Servers {
		if (cl.Kind == "routed" || i == cl.Srv) && !tlsAccept(cl, s.TLS) {
			return false
		}
	}
	return true
}

func tlsAccept(cl *world.ClientCfg, kind string) bool {
	if !cl.TLS {
		return kind == ""
	}
	if kind == "" {
		return false
	}
	if kind == "mutual" && !cl.Cert {
		return false
	}
	if cl.NoVerify {
		return true
	}
	return cl.CA && (kind == "good" || kind == "mutual")
}

func errText(err error) (m string) {
	simrt.Current().InLib(func() { m = err.Error() })
	return
}

func first(err error) string {
	s := errText(err)
	if i := strings.Index(s, "Stack Trace"); i >= 0 {
		s = s[:i]
	}
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 260 {
		s = s[:260] + "..."
	}
	return s
}

func (r *Run) task(i int, tc *world.TaskCfg) {
	defer r.s.Publish(&r.fin)
	r.s.Block("setup", func() bool { return r.ready }, -1)
	if r.drv == nil && r.pool == nil {
		return
	}
	if tc.StartMs > 0 {
		r.s.Sleep(time.Duration(tc.StartMs) * time.Millisecond)
	}
	for j, o := range tc.Ops {
		if r.aborted {
			return
		}
		r.op(i, j, o)
	}
	r.recheck(i)
}

func (r *Run) op(i, j int, o *world.Op) {
	switch o.Op {
	case "sleep":
		r.s.Sleep(time.Duration(o.Ms) * time.Millisecond)
		return
	case "foreign":
		if r.pool != nil && !r.sc.Client.TLS {
			r.foreign(i, j, o)
		}
		return
	case "poolclose":
		if r.pool != nil {
			r.poolClose(i, j, o)
		}
		return
	case "open":
		if s := r.slots[o.C]; s != nil && s.conn != nil && !s.gone && !s.closed {
			return // a shrunk scenario may open a slot twice
		}
		r.open(i, j, o)
		return
	case "wait": // for another task to have opened a shared slot
		r.s.Block("shared slot", func() bool { s := r.slots[o.C]; return s != nil && (s.conn != nil && s.asked || s.failed) }, r.now()+4*3600*time.Second)
		return
	case "waitgive": // for its borrower to be giving a connection back
		r.s.Block("given back", func() bool { s := r.slots[o.C]; return s != nil && (s.goneCall || s.failed) }, r.now()+4*3600*time.Second)
		return
	case "waitdial": // for the pool to be connecting to a server, soon
		n := r.w.Dials
		r.s.Block("dial", func() bool { return r.w.Dials > n }, r.now()+10*time.Second)
		return
	case "waittx": // for another task to have begun a shared transaction
		r.s.Block("shared transaction", func() bool { s := r.slots[o.C]; return r.txs[o.T] != nil || s != nil && s.failed }, r.now()+60*time.Second)
		return
	case "join":
		r.s.Block("join", func() bool {
			for k, t := range r.tasks {
				if k > 0 && k != i+1 && !t.Done() {
					return false
				}
			}
			return true
		}, -1)
		return
	}
	s := r.slots[o.C]
	if s == nil || s.conn == nil {
		return
	}
	switch o.Op {
	case "q":
		r.query(i, j, o, s, nil)
	case "begin":
		r.beginTx(i, j, o, s)
	case "tq", "commit", "rollback", "isclosed":
		t := r.txs[o.T]
		if t == nil || t.s != s {
			return
		}
		switch o.Op {
		case "tq":
			r.query(i, j, o, s, t)
		case "isclosed":
			r.isClosed(i, j, o, t)
		default:
			r.endTx(i, j, o, t)
		}
	case "close":
		r.closeConn(i, j, o, s)
	case "idle":
		r.makeIdle(i, j, o, s)
	case "reclaim":
		if r.pool != nil {
			r.reclaim(i, j, o, s)
		}
	case "validate":
		r.validate(i, j, o, s)
	case "settimeout":
		if s.gone {
			return
		}
		s.timeout = time.Duration(o.Ms) * time.Millisecond
		op := r.begin(i, j, o, s)
		r.call(op, func() { s.conn.SetTimeout(s.timeout) })
	case "chunk":
		if s.gone || s.sock == nil && r.pool != nil {
			return
		}
		op := r.begin(i, j, o, s)
		r.call(op, func() { s.conn.SetChunkSize(uint16(o.N)) })
		for _, c := range s.conns {
			if !c.Closed && (r.pool == nil || c == s.sock) {
				c.SetChunk(o.N)
			}
		}
	}
}

func mode(m string) bolt_mode.AccessMode {
	if m == "r" {
		return bolt_mode.ReadMode
	}
	return bolt_mode.WriteMode
}

// modeKey: which capacity counter a mode draws on.
func (r *Run) modeKey(m string) string {
	if r.sc.Client.Kind != "routed" {
		return ""
	}
	if m == "r" {
		return "r"
	}
	return "w"
}

func (r *Run) limit(k string) int {
	n := r.sc.Client.Size
	switch k {
	case "w":
		return (n + 1) / 2
	case "r":
		return n / 2
	}
	if n < 0 { // no limit
		return 1 << 20
	}
	return n
}

// account updates the capacity bookkeeping after any change.
func (r *Run) account(served bool) {
	if r.sc.Client.Kind == "driver" || r.pool == nil {
		return
	}
	now := r.now()
	for _, k := range []string{"", "r", "w"} {
		if r.used[k] >= r.limit(k) && r.used[k] > 0 {
			r.fullAt[k] = now
		}
	}
	if r.sc.Client.Kind != "pool" {
		return
	}
	lim := 15*time.Second + 6*time.Duration(r.sc.Client.Timeout())*time.Millisecond
	if r.avail >= 0 && now-r.avail > lim && !r.sc.NoTiming && !r.w.TaintedDuring(r.avail, now) && !r.w.UnhealthyDuring(-1, r.avail, now) && r.tlsOK(&r.sc.Client) {
		r.violate("capacity", "a borrower waited %v although only %d of %d connections were borrowed and the server was healthy", now-r.avail, r.used[""], r.limit(""))
	}
	ok := r.pending[""] > 0 && r.used[""] < r.limit("") && !r.closing
	if !ok || served {
		r.avail = never
	}
	if ok && r.avail < 0 {
		r.avail = now
	}
}

func (r *Run) open(i, j int, o *world.Op) {
	s := &slot{id: o.C, mode: o.Mode, cl: r.sc.ClientOf(o)}
	r.slots[o.C] = s
	op := r.begin(i, j, o, s)
	s.open = op
	for _, c := range r.w.Conns {
		if o, _ := c.Owner.(*slot); c.UnaskedAt > 0 && !c.Closed && c.Unread() > 0 && (o == nil || o.gone) {
			s.unasked = append(s.unasked, c)
		}
	}
	k := r.modeKey(o.Mode)
	r.pending[k]++
	r.account(false)
	overlapClosed := r.closeOK
	busy := r.used[k]+r.pending[k] > r.limit(k)
	if busy {
		r.fullAt[k] = r.now() // for those that are waiting already
	}
	dead0 := r.w.LastFault
	_ = dead0
	var conn connection.IConnection
	var err error
	if !r.call(op, func() {
		if r.pool != nil {
			conn, err = r.pool.Open(mode(o.Mode))
		} else {
			drv := r.drv
			if o.Cl > 0 {
				drv = r.drvs[o.Cl-1]
			}
			conn, err = drv.Open(mode(o.Mode))
		}
	}) {
		return
	}
	r.pending[k]--
	r.count(err)
	if err == nil && isNil(conn) {
		r.violate("spurious", "Open returned neither a connection nor an error")
		err = fmt.Errorf("nil connection")
		s.failed = true
		r.account(false)
		return
	}
	if err != nil {
		s.failed = true
		r.account(true)
		if r.pool == nil {
			for _, c := range op.Touched {
				if !c.Closed {
					r.violate("leak", "Open failed and left its connection to %s open", c.Addr)
				}
			}
		}
		r.openFailed(s, op, err, busy)
		return
	}
	if took := op.End - op.Start; r.sc.Client.Kind == "routed" && op.Dials == 0 && took > time.Second && !r.sc.NoTiming {
		r.violate("routed-open", "Open(%s) took %v although it was served with a connection that was there all the time", op.Op.Mode, took)
	}
	s.conn = conn
	r.all = append(r.all, s)
	if r.pool != nil {
		r.holders[k]++
		r.used[k]++
		r.account(true)
		if r.holders[k] > r.limit(k) {
			r.violate("over-cap", "%d connections are borrowed at once (%s) although the limit is %d", r.holders[k], k, r.limit(k))
		}
		if r.used[k] >= r.limit(k) {
			r.s.Probe("pool-full")
		}
	}
	if overlapClosed {
		r.violate("close-not-final", "Open succeeded although Close of the pool had returned before it was called")
	}
	r.opened(s, op)
	if r.aborted {
		return
	}
	if o.N == 1 { // probe
		r.probe(i, j, s, "probe")
	}
}

func isNil(c connection.IConnection) bool {
	if c == nil {
		return true
	}
	if x, ok := c.(*connection.Connection); ok && x == nil {
		return true
	}
	return false
}

var probeTag = 900000

func (r *Run) probe(i, j int, s *slot, why string) {
	r.probes++
	o := &world.Op{Op: "q", C: s.id, Mode: why, Spec: &world.Spec{Tag: probeTag + r.probes, Seed: uint64(r.probes) * 77, Rows: 1, Cols: 1}}
	r.query(i, j, o, s, nil)
}

func (r *Run) opened(s *slot, op *world.OpRun) {
	// exactly one connection must be behind it, and it must be authenticated
	if r.pool == nil {
		var live []*world.Conn
		for _, c := range op.Touched {
			if !c.Closed {
				live = append(live, c)
			}
		}
		if len(live) != 1 {
			r.violate("leak", "Open returned and left %d sockets open", len(live))
		}
		if len(live) > 0 {
			s.sock = live[len(live)-1]
			s.sock.Owner = s
			if !s.sock.Authed() && !s.sock.BadData {
				r.violate("creds", "Open returned a connection to %s that never authenticated", s.sock.Addr)
			}
			if s.sock.RefusedVersion() {
				r.violate("proto", "Open succeeded although the server chose no version the client supports")
			}
		}
	}
	vop := r.begin(op.Task, op.Idx, &world.Op{Op: "version", C: s.id}, s)
	var raw []byte
	called := r.call(vop, func() { s.ver, raw = s.conn.GetProtocolVersionNumber(), s.conn.GetProtocolVersionBytes() })
	s.asked = true
	if !called {
		return
	}
	if s.sock != nil && s.sock.Version() != s.ver && !s.sock.BadData {
		r.violate("proto", "the server chose version %d, the connection says %d", s.sock.Version(), s.ver)
	}
	if !bytes.Equal(raw, []byte{0, 0, 0, byte(s.ver)}) {
		r.violate("proto", "the connection says its version is %d and that it was sent as % x", s.ver, raw)
	}
	if !r.tlsOKFor(s) {
		r.violate("tls-verify", "a connection was returned although the server's certificate does not verify")
	}
	if r.pool == nil || op.Op.N == 0 {
		return
	}
	v := r.begin(op.Task, op.Idx, &world.Op{Op: "validate", C: s.id}, s)
	var ok bool
	if !r.call(v, func() { ok = s.conn.ValidateOpen() }) {
		return
	}
	if !ok && !r.faultNear(op.Start, r.now()) && !r.sc.NoTiming && !(r.closing) {
		r.violate("unclean", "the pool handed out a connection that reports itself as not open")
	}
}

func (r *Run) tlsOKFor(s *slot) bool {
	if s.sock != nil {
		return tlsAccept(s.cl, s.sock.Srv.Cfg.TLS)
	}
	for _, c := range s.conns {
		if !c.Closed && !tlsAccept(s.cl, c.Srv.Cfg.TLS) {
			return false
		}
	}
	return true
}

// faultNear: some fault was in force or took effect in [from-1s, to].
func (r *Run) faultNear(from, to time.Duration) bool {
	from -= time.Second
	return r.w.UnhealthyDuring(-1, from, to) || r.w.TaintedDuring(from, to)
}

func (r *Run) openFailed(s *slot, op *world.OpRun, err error, busy bool) {
	if len(op.Failures) > 0 && r.pool == nil {
		f, msg := op.Failures[0], errText(err)
		if f.Conn.Taint == "" && (!strings.Contains(msg, f.Code) || !strings.Contains(msg, f.Msg)) {
			r.violate("failure-not-reported", "the server refused a new connection with code %q and message %q, but the error is: %s", f.Code, f.Msg, first(err))
		}
		return
	}
	if r.pool != nil && (r.closing || r.closeOK) {
		return
	}
	if !r.tlsOK(s.cl) {
		return
	}
	if r.pool == nil {
		if t, _ := r.tainted(s, op); t != "" {
			return
		}
		if r.faultNear(op.Start, op.End) && len(op.Touched) == 0 {
			return
		}
		r.violate("spurious", "Open failed although nothing was wrong: %s", first(err))
		return
	}
	if r.w.BadReport() {
		return
	}
	if k := r.modeKey(op.Op.Mode); r.sc.Client.Kind == "routed" && !r.sc.NoTiming && !busy && f0(r.fullAt, k) < op.Start && r.used[k] < r.limit(k) {
		lim := refresh + r.grace()
		for _, sv := range r.w.MustServe(op.Op.Mode == "w", op.Start-time.Second, op.End) {
			if len(op.Failures) == 0 && r.w.SteadyDuring(sv, op.Start-lim, op.End) {
				r.violate("routed-open", "Open(%s) failed although %s, which the topology names for it, had been healthy for %v and %d of %d connections were borrowed: %s", op.Op.Mode, sv.Addr, lim, r.used[k], r.limit(k), first(err))
				return
			}
		}
	}
	if r.faultNear(op.Start, op.End) || r.sc.NoTiming && r.faultNear(op.Start-5*time.Second, op.End) {
		return
	}
	if r.sc.Client.Kind == "routed" {
		k := r.modeKey(op.Op.Mode)
		if busy || f0(r.fullAt, k) >= op.Start || r.used[k] >= r.limit(k) {
			return
		}
		lim := refresh + r.grace()
		from := op.Start - lim
		if r.w.UnhealthyDuring(-1, from, op.End) || !r.w.RolesComplete() || r.w.Faults["overview-malformed"] > 0 && r.now()-r.w.LastFault < lim {
			return
		}
		for _, t := range r.w.TopoChange {
			if t >= from {
				return
			}
		}
		if known, any := r.w.AllowedFor(op.Op.Mode == "w", op.Start, op.End); any && len(known) == 0 && r.w.LastFault >= from {
			// the last refresh failed, and the one before found no such member
			return
		}
		if r.w.LastFault >= from && !r.w.SureReport(from, op.Start) {
			// a fault on the refresh's own connection may have cost it this interval
			return
		}
		r.violate("routed-open", "Open(%s) failed although the cluster had been healthy for %v and %d of %d connections were borrowed: %s", op.Op.Mode, lim, r.used[k], r.limit(k), first(err))
		return
	}
	r.violate("capacity", "Open failed although the server was healthy and only %d of %d connections were borrowed: %s", r.used[""], r.limit(""), first(err))
}

// ---- statements

// Statement builds what a caller passes for a spec, and what must arrive.
func Statement(sp *world.Spec) (string, connection.QueryParams, map[string]interface{}) {
	rn := simrt.NewRNG(simrt.Mix(sp.Seed ^ 0x9A9A))
	text := fmt.Sprintf("Q%d RETURN", sp.Tag)
	if sp.Txt > 0 {
		text += " /*" + world.GenStr(rn, sp.Txt) + "*/"
	}
	want := map[string]interface{}{}
	var p connection.QueryParams
	if sp.NPar > 0 || sp.Seed%2 == 0 {
		p = connection.QueryParams{}
	}
	for i := 0; i < sp.NPar; i++ {
		k := fmt.Sprintf("p%d", i)
		if rn.Intn(8) == 0 {
			k = world.GenStr(rn, 3+rn.Intn(30)) + k
		}
		p[k], want[k] = world.GoParam(rn, sp.Sz)
	}
	for i := 0; i < sp.Tmp; i++ {
		if p == nil {
			p = connection.QueryParams{}
		}
		k := fmt.Sprintf("t%d", i)
		p[k], want[k] = goTemporal(rn)
	}
	if sp.Bad {
		if p == nil {
			p = connection.QueryParams{}
		}
		if sp.Uint {
			p["u"], want["u"] = world.BigUint(rn)
		} else {
			p[fmt.Sprintf("b%d", rn.Intn(10))] = world.BadParam(rn)
		}
	}
	return text, p, want
}

// mustFail says why a call on this connection or transaction has to fail.
func (r *Run) mustFail(s *slot, t *txSlot) string {
	if t != nil && t.ended != "" {
		return "ended-tx"
	}
	if s.gone {
		return "gone"
	}
	if s.closed {
		return "closed"
	}
	if s.dead {
		return "dead"
	}
	return ""
}

var failClass = map[string]string{"ended-tx": "ended-tx", "gone": "ended-tx", "closed": "closed-use", "dead": "failstop", "db": "db", "bad": "unencodable-executed"}

func (r *Run) query(i, j int, o *world.Op, s *slot, t *txSlot) {
	if s.gone && t == nil {
		return // using a connection after giving it back is the caller's mistake
	}
	sp := o.Spec
	text, params, want := Statement(sp)
	why := r.mustFail(s, t)
	wantDB := o.DB
	if t != nil && wantDB == "" {
		wantDB = t.db
	}
	if why == "" && o.DB != "" {
		if ver := r.verOf(s); ver > 0 && ver < 4 {
			why = "db"
		} else if t != nil && t.db != "" && t.db != o.DB {
			why = "db"
		}
	}
	if why == "" && sp.Bad {
		why = "bad"
	}
	if t != nil && t.foggy && why != "ended-tx" {
		why = "?" + why
	}
	op := r.begin(i, j, o, s)
	r.w.Issued[sp.Tag] = &world.Issued{Text: text, Params: want, Spec: sp, Bad: sp.Bad, Op: op, InTx: t != nil}
	if t != nil {
		t.tags = append(t.tags, sp.Tag)
	}
	var q connection.IQuery = s.conn
	if t != nil {
		q = t.tx
	}
	var fresh connection.QueryParams
	if !simrt.RaceBuild && sp.Seed%3 == 0 && sp.Sz < 3 {
		if _, f, _ := Statement(sp); reflect.DeepEqual(f, params) {
			fresh = f
		}
	}
	var rows [][]interface{}
	var res connection.IResult
	var err error
	if !r.call(op, func() {
		switch {
		case sp.Exec && (o.WDB || o.DB != ""):
			res, err = q.ExecWithDb(text, params, o.DB)
		case sp.Exec:
			res, err = q.Exec(text, params)
		case o.WDB || o.DB != "":
			rows, res, err = q.QueryWithDb(text, params, o.DB)
		default:
			rows, res, err = q.Query(text, params)
		}
	}) {
		return
	}
	if fresh != nil && !reflect.DeepEqual(fresh, params) {
		r.violate("params-changed", "statement %d: the call changed the parameters of the caller from %s to %s", sp.Tag, show(canon(map[string]interface{}(fresh))), show(canon(map[string]interface{}(params))))
	}
	r.count(err)
	if s.dead && why == "" && op.ID > s.deadOp {
		why = "dead"
	}
	execs := r.w.ByTag[sp.Tag]
	if len(execs) > 1 {
		r.violate("not-exactly-once", "statement %d was executed %d times", sp.Tag, len(execs))
	}
	if len(why) > 0 && why[0] == '?' {
		// the handle itself says whether the transaction is still open
		if err != nil {
			r.foggy(i, j, t)
			return
		}
		why = why[1:]
	}
	if why != "" {
		cl := failClass[why]
		if len(execs) > 0 {
			r.violate(cl, "statement %d reached the server although it must not (%s)", sp.Tag, why)
		}
		if err == nil {
			r.violate(cl, "statement %d returned no error although it must fail (%s)", sp.Tag, why)
			return
		}
		if why == "ended-tx" && op.Wrote > 0 {
			r.violate(cl, "a statement on an ended transaction sent %d bytes to a server", op.Wrote)
		}
		if why == "bad" || why == "db" {
			r.s.Probe("rejected-" + why)
			if t != nil {
				t.foggy = true
				r.foggy(i, j, t)
			}
		}
		return
	}
	if err != nil {
		if t != nil && t.db == "" && o.DB != "" && len(op.Failures) == 0 && len(execs) == 0 {
			if o.DB == "neo4j" {
				t.foggy = true
				r.foggy(i, j, t)
				return // the client cannot know that this is the transaction's database
			}
			t.foggy = true
			r.foggy(i, j, t)
			return
		}
		r.failed(i, j, s, t, op, err, "statement "+fmt.Sprint(sp.Tag))
		return
	}
	r.unreported(op, "run", "the statement")
	r.succeeded(s, t, op, o, rows, res, wantDB)
}

// unreported: a call that returned nil although the server answered its own
// request with a failure.
func (r *Run) unreported(op *world.OpRun, ev, what string) {
	for _, f := range op.Failures {
		if f.Event == ev && !f.Conn.BadData {
			r.violate("failure-not-reported", "%s returned nil although the server answered it with code %q and message %q", what, f.Code, f.Msg)
			return
		}
	}
}

// foggy settles a transaction whose fate only its handle knows.
func (r *Run) foggy(i, j int, t *txSlot) {
	op := r.begin(i, j, &world.Op{Op: "isclosed", C: t.s.id, T: t.id}, t.s)
	closed := false
	if !r.call(op, func() { closed = t.tx.IsClosed() }) {
		return
	}
	if closed {
		t.ended = "given up"
	}
}

// failed judges an error nothing in the call itself explains.
func (r *Run) failed(i, j int, s *slot, t *txSlot, op *world.OpRun, err error, what string) {
	if s.closing { // by another task, while this call was made
		if t != nil {
			t.ended = "connection closed"
		}
		return
	}
	if t != nil && t.enders > 0 && op.Op.Op == "tq" { // likewise
		return
	}
	taint, tc := r.tainted(s, op)
	msg := errText(err)
	if len(op.Failures) > 0 {
		f := op.Failures[0]
		if (taint == "" || f.Conn.FailureRead(f) && !f.Conn.BadData) && (!strings.Contains(msg, f.Code) || !strings.Contains(msg, f.Msg)) {
			r.violate("failure-not-reported", "%s failed on the server with code %q and message %q, but the error is: %s", what, f.Code, f.Msg, first(err))
		}
		r.s.Probe("server-failure-seen")
		if t != nil {
			t.ended = "failed"
		}
		if tc != nil && tc.ResetFailed() {
			r.mustBeDead(i, j, s, "unusable", "the server refused the reset")
		}
		return
	}
	if taint == "" {
		cl := "spurious"
		if op.Op.Mode == "probe" {
			cl = "unclean"
		} else if op.Op.Mode == "final" || op.Op.Mode == "drain" {
			cl = "unusable"
		}
		r.violate(cl, "%s failed although nothing was wrong: %s", what, first(err))
		if t != nil {
			t.ended = "failed"
		}
		return
	}
	r.s.Probe("transport-failure-seen")
	if t != nil {
		t.ended = "lost"
	}
	if tc.BadData && hasFailure(tc) {
		return // a failure message among the odd replies: resetting is right
	}
	r.mustBeDead(i, j, s, "failstop", taint)
}

func hasFailure(c *world.Conn) bool {
	if c.Deep() {
		return true // perhaps
	}
	for _, m := range c.SentMessages() {
		if st, ok := m.(*world.Struct); ok && st.Tag == 0x7F {
			return true
		}
	}
	return false
}

func (r *Run) mustBeDead(i, j int, s *slot, class, why string) {
	if !s.dead {
		s.dead = true
		s.deadAt = r.now()
		s.deadOp = len(r.ops)
		s.deadWhy = why
	}
	for _, t := range s.txs {
		if t.ended == "" {
			t.ended = "lost"
		}
	}
	op := r.begin(i, j, &world.Op{Op: "validate", C: s.id}, s)
	ok := false
	if !r.call(op, func() { ok = s.conn.ValidateOpen() }) {
		return
	}
	for _, c := range s.conns {
		if ok && c.UnaskedAt != 0 { // a stray reply in its place: nobody can tell
			s.dead = false
			return
		}
	}
	if ok {
		r.violate(class, "a call failed (%s), yet the connection reports itself as open", why)
	}
}

func (r *Run) succeeded(s *slot, t *txSlot, op *world.OpRun, o *world.Op, rows [][]interface{}, res connection.IResult, wantDB string) {
	sp := o.Spec
	execs := r.w.ByTag[sp.Tag]
	var c *world.Conn
	bad := false
	for _, x := range op.Touched {
		bad = bad || x.BadData
		c = x
	}
	if t != nil {
		t.okTags = append(t.okTags, sp.Tag)
	} else if !bad {
		r.okAuto = append(r.okAuto, sp.Tag)
	}
	if bad {
		r.invented(c, sp, rows, res)
		return
	}
	if len(execs) != 1 {
		r.violate("not-exactly-once", "statement %d returned success but was executed %d times", sp.Tag, len(execs))
		return
	}
	ex := execs[0]
	if ex.Failed {
		r.violate("wrong-result", "statement %d failed on the server, yet the call returned success", sp.Tag)
		return
	}
	if sp.Fail != "" {
		r.violate("wrong-result", "statement %d must fail, yet the call returned success", sp.Tag)
		return
	}
	if !ex.Done {
		r.violate("wrong-result", "statement %d returned success before the server had produced its result", sp.Tag)
	}
	wrows, wmd := world.Result(sp, ex.Conn.Version(), ex.DB)
	// the caller may do what it likes with a result it was given
	scribble := sp.Seed%5 == 1 && !simrt.RaceBuild
	if !sp.Exec {
		got := make([]interface{}, len(rows))
		for i := range rows {
			got[i] = canon(rows[i])
		}
		wr := make([]interface{}, len(wrows))
		for i := range wrows {
			wr[i] = wrows[i]
		}
		if !same(got, wr) {
			r.violate("wrong-result", "statement %d returned rows %s, the server sent %s", sp.Tag, rowDiff(got, wr), show(wr))
		} else if scribble {
			for _, row := range rows {
				for i := range row {
					switch x := row[i].(type) {
					case map[string]interface{}:
						x["scribbled"] = true
					case []interface{}:
						for k := range x {
							x[k] = "scribbled"
						}
					case []byte:
						for k := range x {
							x[k] ^= 0xff
						}
					}
					row[i] = "scribbled"
				}
			}
		} else if len(rows) > 0 {
			r.kept = append(r.kept, kept{task: op.Task, tag: sp.Tag, rows: rows, want: wr})
		}
	}
	if res == nil {
		r.violate("wrong-result", "statement %d returned no summary", sp.Tag)
		return
	}
	var md interface{}
	var raw map[string]interface{}
	if !r.call2(op, func() { raw = res.Metadata(); md = canon(raw) }) {
		return
	}
	if !same(md, interface{}(wmd)) {
		r.violate("wrong-result", "statement %d returned summary %s, the server sent %s", sp.Tag, show(md), show(wmd))
	}
	r.counters(op, sp, res, wmd)
	if scribble && raw != nil {
		for k := range raw {
			raw[k] = "scribbled"
		}
		raw["more"] = "scribbled"
	} else {
		r.kept = append(r.kept, kept{task: op.Task, tag: sp.Tag, res: res, want: wmd})
	}
	if wantDB == "" {
		wantDB = "neo4j"
	}
	if ex.DB != wantDB {
		r.violate("db", "statement %d was to run in database %q and ran in %q", sp.Tag, wantDB, ex.DB)
	}
	if t != nil && t.srv != nil && ex.Tx != t.srv {
		r.violate("atomicity", "statement %d ran in another transaction than the one it was issued on", sp.Tag)
	}
	if s.sock != nil && ex.Conn != s.sock {
		r.violate("atomicity", "statement %d ran on another server connection than earlier statements of its connection", sp.Tag)
	}
}

// kept is a correct result that has to stay what it is: later calls on the
// connection must not change it.
type kept struct {
	task int
	tag  int
	rows [][]interface{}
	res  connection.IResult
	want interface{}
}

func (r *Run) recheck(task int) {
	for _, k := range r.kept {
		if task >= 0 && k.task != task {
			continue
		}
		if k.res != nil {
			var raw map[string]interface{}
			get := func() { raw = k.res.Metadata() }
			if task >= 0 {
				simrt.Current().InLib(get)
			} else {
				get()
			}
			if md := canon(raw); !same(md, k.want) {
				r.violate("wrong-result", "the summary of statement %d was correct when it was returned, later it changed to %s", k.tag, show(md))
				return
			}
			continue
		}
		got := make([]interface{}, len(k.rows))
		for i := range k.rows {
			got[i] = canon(k.rows[i])
		}
		if !same(got, k.want) {
			r.violate("wrong-result", "the rows of statement %d were correct when they were returned, later they changed: %s", k.tag, rowDiff(got, k.want.([]interface{})))
			return
		}
	}
}

func rowDiff(got, want []interface{}) string {
	if len(got) != len(want) {
		return fmt.Sprintf("(%d rows instead of %d) %s", len(got), len(want), show(got))
	}
	for i := range got {
		if !same(got[i], want[i]) {
			return fmt.Sprintf("(row %d) %s instead of %s", i, show(got[i]), show(want[i]))
		}
	}
	return show(got)
}

// call2 runs a small call belonging to op, recording panics only.
func (r *Run) call2(op *world.OpRun, fn func()) bool {
	o := *op.Op
	o.Op = "result"
	x := &world.OpRun{Task: op.Task, Idx: op.Idx, Op: &o, Data: op.Data, ID: op.ID}
	return r.call(x, fn)
}

func (r *Run) counters(op *world.OpRun, sp *world.Spec, res connection.IResult, md map[string]interface{}) {
	st, _ := md["stats"].(map[string]interface{})
	type ctr struct {
		key string
		fn  func() (int64, bool)
	}
	for _, c := range []ctr{{"nodes-created", res.GetNodesCreated}, {"relationships-created", res.GetRelationshipsCreated}, {"nodes-deleted", res.GetNodesDeleted}, {"relationships-deleted", res.GetRelationshipsDeleted}} {
		var n int64
		var ok bool
		if !r.call2(op, func() { n, ok = c.fn() }) {
			return
		}
		want, has := st[c.key].(int64)
		if ok != has || ok && n != want {
			r.violate("counter", "counter %s is (%d, %v) although the server's statistics are %s", c.key, n, ok, show(md["stats"]))
		}
	}
	var m map[string]interface{}
	var ok bool
	if r.call2(op, func() { m, ok = res.GetStats() }) && (ok != (st != nil) || ok && !sameLoose(canon(m), canon(st))) {
		r.violate("counter", "GetStats is (%s, %v) although the server's statistics are %s", show(m), ok, show(md["stats"]))
	}
}

// invented checks, on a connection whose server sent odd replies, that only
// what was really sent is returned.
func (r *Run) invented(c *world.Conn, sp *world.Spec, rows [][]interface{}, res connection.IResult) {
	r.s.Probe("odd-reply-accepted")
	msgs := c.SentMessages()
	_, okmd := world.Result(sp, c.Version(), "")
	_ = okmd
	for _, row := range rows {
		found := false
		g := canon(row)
		for _, m := range msgs {
			st, ok := m.(*world.Struct)
			if ok && len(st.Fields) >= 1 && sameLoose(g, st.Fields[0]) {
				found = true
				break
			}
		}
		if !found && !c.WirePartial() {
			r.violate("wrong-result", "the row %s was returned although the server never sent it%s", show(g), c.WireDump())
			return
		}
	}
	if res == nil {
		return
	}
	op := &world.OpRun{Op: &world.Op{Op: "result"}}
	r.call(op, func() { res.GetNodesCreated() })
	r.call(op, func() { res.GetNodesDeleted() })
	r.call(op, func() { res.GetRelationshipsCreated() })
	r.call(op, func() { res.GetRelationshipsDeleted() })
	r.call(op, func() { res.GetStats() })
	var md interface{}
	if !r.call(op, func() { md = canon(res.Metadata()) }) {
		return
	}
	for _, m := range msgs {
		if st, ok := m.(*world.Struct); ok && len(st.Fields) >= 1 && sameLoose(md, st.Fields[0]) {
			return
		}
	}
	if m, ok := md.(map[string]interface{}); ok && len(m) == 0 {
		return
	}
	if !c.WirePartial() {
		r.violate("wrong-result", "the summary %s was returned although the server never sent it%s", show(md), c.WireDump())
	}
}

// ---- transactions

// verOf is the protocol version of the connection, as far as it is known.
func (r *Run) verOf(s *slot) int {
	if s.ver == 0 && s.sock != nil {
		return s.sock.Version() // another task is still asking
	}
	return s.ver
}

func (r *Run) beginTx(i, j int, o *world.Op, s *slot) {
	if s.gone {
		return
	}
	if t := r.txs[o.T]; t != nil && t.s == s && t.ended == "" {
		return
	}
	why := r.mustFail(s, nil)
	if why == "" && o.DB != "" && r.verOf(s) > 0 && r.verOf(s) < 4 {
		why = "db"
	}
	live, ending := false, false
	for _, t := range s.txs {
		if t.foggy {
			// ask again: the handle may have ended meanwhile
			r.foggy(i, j, t)
		}
		live = live || t.ended == "" && t.enders == 0
		ending = ending || t.ended == "" && t.enders > 0
	}
	if r.aborted {
		return
	}
	if why == "" && live {
		why = "tx-open"
	}
	op := r.begin(i, j, o, s)
	ntx := len(r.w.Txs)
	var tx connection.ITransaction
	var err error
	if !r.call(op, func() {
		if o.WDB || o.DB != "" {
			tx, err = s.conn.BeginWithDatabase(o.DB)
		} else {
			tx, err = s.conn.Begin()
		}
	}) {
		return
	}
	r.count(err)
	var srv *world.Tx
	for _, x := range r.w.Txs[ntx:] {
		for _, c := range op.Touched {
			if x.Conn() == c {
				srv = x
			}
		}
	}
	if why == "tx-open" {
		still := false
		for _, t := range s.txs {
			still = still || t.ended == "" && t.enders == 0 && !t.foggy
		}
		if err == nil && still {
			r.violate("atomicity", "Begin returned no error while another transaction is open on the connection")
		} else if srv != nil && still {
			r.violate("atomicity", "Begin started a transaction on the server while another is open on the connection")
		}
		return
	}
	if why != "" {
		cl := failClass[why]
		if err == nil {
			r.violate(cl, "Begin returned no error although it must fail (%s)", why)
		} else if srv != nil {
			r.violate(cl, "Begin failed as it must (%s), yet a transaction was started on the server", why)
		}
		return
	}
	if err != nil && ending {
		return // another task was just ending the transaction before this one
	}
	if err != nil {
		r.failed(i, j, s, nil, op, err, "Begin")
		return
	}
	if isNilTx(tx) {
		r.violate("spurious", "Begin returned neither a transaction nor an error")
		return
	}
	r.unreported(op, "begin", "Begin")
	t := &txSlot{id: o.T, s: s, tx: tx, db: o.DB, srv: srv}
	r.txs[o.T] = t
	s.txs = append(s.txs, t)
	r.allTx = append(r.allTx, t)
	bad := false
	for _, c := range op.Touched {
		bad = bad || c.BadData
	}
	if bad {
		return
	}
	if srv == nil {
		r.violate("atomicity", "Begin returned success but the server has no transaction")
		return
	}
	if s.sock == nil {
		s.sock = srv.Conn()
	}
	want := o.DB
	if s.ver >= 4 && srv.DB != want && !(want == "" && srv.DB == "neo4j") {
		r.violate("db", "a transaction for database %q was begun in %q", want, srv.DB)
	}
}

func isNilTx(t connection.ITransaction) bool { return t == nil || fmt.Sprintf("%v", t) == "<nil>" }

func (r *Run) endTx(i, j int, o *world.Op, t *txSlot) {
	s := t.s
	why := ""
	if t.ended != "" {
		why = "ended-tx"
	}
	commit := o.Op == "commit"
	if s.gone && why == "" {
		return
	}
	if why == "" && t.foggy {
		why = "?"
	}
	if why == "" || why == "?" {
		if commit {
			t.commit = true
		}
	}
	t.enders++
	op := r.begin(i, j, o, s)
	var err error
	if !r.call(op, func() {
		if commit {
			err = t.tx.Commit()
		} else {
			err = t.tx.Rollback()
		}
	}) {
		return
	}
	r.count(err)
	bad := false
	for _, c := range op.Touched {
		bad = bad || c.BadData
	}
	if why == "ended-tx" {
		if err == nil {
			r.violate("ended-tx", "%s on a transaction that has ended (%s) returned no error", o.Op, t.ended)
		}
		if op.Wrote > 0 {
			r.violate("ended-tx", "%s on a transaction that has ended (%s) sent %d bytes to a server", o.Op, t.ended, op.Wrote)
		}
		return
	}
	if t.enders > 1 && why == "" && err != nil {
		return // another task ended it, or tried to, while this call was made
	}
	if err != nil {
		t.how = o.Op + " failed"
		if why == "?" {
			r.foggy(i, j, t)
			if t.ended == "" {
				t.ended = "given up"
			}
			return
		}
		r.failed(i, j, s, t, op, err, o.Op)
		return
	}
	r.unreported(op, o.Op, o.Op)
	if t.how == "commit" || t.how == "rollback" {
		r.violate("ended-tx", "%s returned nil although another %s of the transaction did so too", o.Op, t.how)
	}
	t.how = o.Op
	if commit {
		t.ended = "committed"
	} else {
		t.ended = "rolled back"
	}
	if t.srv != nil && !bad {
		want := "committed"
		if !commit {
			want = "rolledback"
		}
		if t.srv.State != want {
			r.violate("atomicity", "%s returned nil but on the server the transaction is %s (%s)", o.Op, t.srv.State, t.srv.EndReason)
		}
	}
}

func (r *Run) isClosed(i, j int, o *world.Op, t *txSlot) {
	op := r.begin(i, j, o, t.s)
	closed := false
	ended := t.ended
	if !r.call(op, func() { closed = t.tx.IsClosed() }) {
		return
	}
	if ended != "" && !closed {
		r.violate("ended-tx", "IsClosed reports false although the transaction has ended (%s)", ended)
	}
}

// ---- connections

func (s *slot) endAll(why string) {
	for _, t := range s.txs {
		if t.ended == "" {
			t.ended = why
		}
	}
}

func (r *Run) closeConn(i, j int, o *world.Op, s *slot) {
	if s.gone {
		return
	}
	s.closing = true
	s.closes++
	op := r.begin(i, j, o, s)
	var err error
	if !r.call(op, func() { err = s.conn.Close() }) {
		return
	}
	r.count(err)
	s.closed = true
	s.endAll("connection closed")
	if r.pool == nil && s.closes == 1 && s.sock != nil && !s.sock.Closed {
		r.violate("leak", "Close returned (%v) but the socket is still open", err != nil)
	}
	if err != nil && s.closes == 1 && !s.dead {
		if t, _ := r.tainted(s, op); t == "" && len(op.Failures) == 0 {
			r.violate("spurious", "Close failed although nothing was wrong: %s", first(err))
		}
	}
}

func (r *Run) makeIdle(i, j int, o *world.Op, s *slot) {
	if s.gone || s.closed {
		return
	}
	op := r.begin(i, j, o, s)
	var err error
	if s.sock != nil {
		s.sock.GivenBack()
	}
	if !r.call(op, func() { err = s.conn.MakeIdle() }) {
		return
	}
	r.count(err)
	live := false
	for _, t := range s.txs {
		live = live || t.ended == ""
	}
	s.endAll("made idle")
	if err != nil && !s.dead {
		r.failed(i, j, s, nil, op, err, "MakeIdle")
	}
	_ = live
}

func (r *Run) validate(i, j int, o *world.Op, s *slot) {
	if s.gone {
		return
	}
	op := r.begin(i, j, o, s)
	ok := false
	if !r.call(op, func() { ok = s.conn.ValidateOpen() }) {
		return
	}
	if ok && (s.closed || s.dead) {
		cl := "failstop"
		if s.closed {
			cl = "closed-use"
		}
		r.violate(cl, "a connection that was closed or has failed (%s) reports itself as open", s.deadWhy)
	}
	if !ok && !s.closing && !s.dead {
		if t, _ := r.tainted(s, op); t == "" && !r.faultNear(op.Start, op.End) {
			r.violate("spurious", "a healthy connection reports itself as not open")
		}
	}
}

func (r *Run) reclaim(i, j int, o *world.Op, s *slot) {
	if s.gone && o.N == 0 || o.N == 2 && !s.goneCall {
		return
	}
	op := r.begin(i, j, o, s)
	firstTime := !s.goneCall
	racing := !firstTime && !s.gone // the owner's own call is still running
	op.Again = !firstTime && !racing
	if racing {
		s.racers = append(s.racers, op)
	}
	if firstTime || racing {
		s.giving++
	}
	k := r.modeKey(s.mode)
	if firstTime {
		s.goneCall = true
		if s.sock != nil {
			s.sock.GivenBack()
		}
		r.holders[k]--
		s.endAll("given back")
	}
	var err error
	ok := r.call(op, func() { err = r.pool.Reclaim(s.conn) })
	if firstTime {
		s.gone = true
	}
	if ok && err == nil {
		if s.takenBack {
			r.violate("double-holder", "the pool took the same connection back twice")
		}
		s.takenBack = true
		for _, x := range s.racers {
			x.Again = x.Again || x != op
		}
	}
	if firstTime || racing {
		if s.giving--; s.giving == 0 {
			r.used[k]--
			r.account(false)
		}
	}
	if !ok {
		return
	}
	r.count(err)
	if firstTime && err != nil && len(s.racers) == 0 && !s.dead && !s.closed && !r.closing && (s.timeout == 0 || s.timeout >= r.timeoutFor(op)) {
		if t, _ := r.tainted(s, op); t == "" && !r.faultNear(op.Start, op.End) && len(op.Failures) == 0 {
			r.violate("spurious", "giving back a healthy connection failed: %s", first(err))
		}
	}
}

// foreign offers the pool a connection that it never lent: one a driver opened,
// or one that another pool lent. It must refuse it and leave it alone.
func (r *Run) foreign(i, j int, o *world.Op) {
	op := r.begin(i, j, o, nil)
	var conn connection.IConnection
	var other goBolt.IDriverPool
	var err error
	sv := r.sc.Servers[0]
	if !r.call(op, func() {
		var cli goBolt.IClient
		cli, err = goBolt.NewClient(goBolt.WithHostPort(sv.Host, sv.Port), goBolt.WithBasicAuth(r.sc.Client.User, r.sc.Client.Pass), goBolt.WithTimeout(time.Duration(r.sc.Client.Timeout())*time.Millisecond))
		if err != nil {
			return
		}
		if o.N == 0 {
			var d goBolt.IDriver
			if d, err = cli.NewDriver(); err == nil {
				conn, err = d.Open(mode(o.Mode))
			}
			return
		}
		if other, err = cli.NewDriverPool(1); err == nil {
			conn, err = other.Open(mode(o.Mode))
		}
	}) {
		return
	}
	r.count(err)
	taint := func() bool {
		for _, c := range r.w.Conns {
			if c.Foreign && c.Taint != "" {
				return true
			}
		}
		return false
	}
	quit := func(conn connection.IConnection) {
		op := r.begin(i, j, &world.Op{Op: "foreignend"}, nil)
		r.call(op, func() {
			if other != nil {
				if conn != nil {
					err = other.Reclaim(conn)
				}
				other.Close()
			} else if conn != nil {
				err = conn.Close()
			}
		})
	}
	if err != nil {
		quit(nil)
		return
	}
	rop := r.begin(i, j, &world.Op{Op: "foreignreclaim"}, nil)
	var rerr error
	if !r.call(rop, func() { rerr = r.pool.Reclaim(conn) }) {
		return
	}
	r.count(rerr)
	r.s.Probe("foreign-reclaim")
	if rerr == nil {
		r.violate("double-holder", "the pool took a connection it had never lent")
	}
	if len(rop.Touched) > 0 {
		r.violate("double-holder", "the pool used connection %d, which it was offered but had never lent", rop.Touched[0].ID)
	}
	quit(conn)
	if err != nil && !r.aborted && !taint() && !r.faultNear(op.Start, r.now()) {
		r.violate("double-holder", "a connection was no longer usable after a pool that never lent it was asked to take it: %s", first(err))
	}
}

func (r *Run) poolClose(i, j int, o *world.Op) {
	op := r.begin(i, j, o, nil)
	was := r.closeOK
	r.closing = true
	if r.closeOp == 0 {
		r.closeOp = r.now()
	}
	r.account(false)
	var err error
	if !r.call(op, func() { err = r.pool.Close() }) {
		return
	}
	r.count(err)
	if err == nil {
		if was || r.closeOK {
			r.violate("close-not-final", "a second Close of the pool returned no error")
		}
		if !r.closeOK {
			r.closeOK = true
			r.closeAt = r.now()
			r.closedIdle(op)
		}
	} else if !was && !r.faultNear(op.Start-r.grace(), op.End) && r.countClose() == 1 {
		r.violate("spurious", "closing the pool failed: %s", first(err))
	}
}

// closedIdle: with no other call under way, what the pool held idle is closed
// by the time its Close has returned.
func (r *Run) closedIdle(op *world.OpRun) {
	for _, o := range r.ops {
		if o != op && (o.ID > op.ID || !o.Returned || o.End > op.Start) {
			return
		}
	}
	out := map[*world.Conn]bool{}
	for _, s := range r.slots {
		if s.conn != nil && !s.goneCall {
			for _, c := range s.conns {
				out[c] = true
			}
			out[s.sock] = true
		}
	}
	for _, c := range r.w.OpenConns() {
		o, _ := c.Owner.(*slot)
		if out[c] || r.sc.Client.Kind == "routed" && (o == nil || !o.gone || c.Progress > op.Start-10*time.Millisecond) {
			continue
		}
		r.violate("pool-leak", "connection %d to %s was idle in the pool and is still open after the pool's Close has returned", c.ID, c.Addr)
	}
}

func (r *Run) countClose() int {
	n := 0
	for _, o := range r.ops {
		if o.Op.Op == "poolclose" {
			n++
		}
	}
	return n
}
