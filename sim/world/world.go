package world

import (
	"crypto/tls"
	"crypto/x509"
	"embed"
	"fmt"
	"hash/fnv"
	"net"
	"sort"
	"strings"
	"time"

	"verif.local/sim/simrt"
)

//go:embed certs
var certFS embed.FS

// OddDir is a directory with the same files, whose name has every character
// that means something in a connection string.
const OddDir = "a b+c&d=e%41;f#g?h@i:j"

// CertFile returns an embedded PEM file (ca.pem, client.pem, client.key, ...).
func CertFile(name string) []byte {
	b, err := certFS.ReadFile("certs/" + name)
	if err != nil {
		panic(err)
	}
	return b
}

// Issued is a statement some caller has issued.
type Issued struct {
	Text   string
	Params map[string]interface{}
	Spec   *Spec
	Bad    bool
	Op     interface{} // the call that issued it
	InTx   bool
}

// Failure is a failure the server reported.
type Failure struct {
	At        time.Duration
	Code, Msg string
	Conn      *Conn
	Event     string
}

// OpRun is one call in progress or done. Task.Data holds the current one.
type OpRun struct {
	Task     int
	Idx      int
	Op       *Op
	Start    time.Duration
	End      time.Duration
	Returned bool
	Again    bool // a repeated Reclaim
	Dials    int
	Touched  []*Conn
	Wrote    int
	Failures []Failure
	ID       int
	Data     interface{}
}

func (o *OpRun) HasTouched(c *Conn) bool {
	for _, x := range o.Touched {
		if x == c {
			return true
		}
	}
	return false
}

// Report is one answer to a topology query.
type Report struct {
	Srv         int
	SentAt      time.Duration
	DeliveredAt time.Duration
	Delivered   bool
	Sure        bool // the client certainly received it
	OK          bool
	Leaders     map[string]bool
	Readers     map[string]bool
	conn        *Conn
}

// Violation is a broken property, in terms of a class the checks map to ids.
type Violation struct {
	Class string        `json:"class"`
	Msg   string        `json:"msg"`
	At    time.Duration `json:"at"`
}

// World is the simulated environment of one run.
type World struct {
	S       *simrt.Sim
	Sc      *Scenario
	Servers []*Server
	byAddr  map[string]*Server

	Conns        []*Conn
	open         map[*Conn]bool
	MaxOpen      int
	Dials        int
	DialsUnknown int
	Established  int
	Requests     int
	Auths        int

	TLSHandshakes int
	TLSFailures   int

	Unhealthy  []Interval
	Execs      []*Exec
	ByTag      map[int][]*Exec
	Issued     map[int]*Issued
	Applied    map[int]int
	Txs        []*Tx
	txID       int
	CommitSeq  int
	Reports    []*Report
	TopoChange []time.Duration
	Violations []Violation
	Faults     map[string]int
	LastFault  time.Duration

	waiters []func()

	OnDial  func(addr string)
	OnOpen  func(*Conn)
	OnClose func(*Conn)
	OnExec  func(*Exec, *Issued)
	OnTouch func(*Conn, *OpRun)

	digest  uint64
	Log     []string
	KeepLog bool
	healed  bool
}

// New builds the world of a scenario. The simulation must be current.
func New(s *simrt.Sim, sc *Scenario) *World {
	w := &World{S: s, Sc: sc, byAddr: map[string]*Server{}, open: map[*Conn]bool{}, ByTag: map[int][]*Exec{},
		Issued: map[int]*Issued{}, Applied: map[int]int{}, Faults: map[string]int{}}
	for i, c := range sc.Servers {
		sv := &Server{w: w, ID: i, Cfg: c, Role: c.Role, badSince: -1}
		sv.Addr = c.Addr()
		w.Servers = append(w.Servers, sv)
		w.byAddr[strings.ToLower(sv.Addr)] = sv
	}
	s.Net = w
	for _, f := range sc.Faults {
		f.fired, f.seen = false, 0
		if f.On == "" {
			f := f
			s.At(time.Duration(f.AtMs)*time.Millisecond, func() { w.fireTimed(f) })
		}
	}
	return w
}

func (w *World) lookup(addr string) *Server { return w.byAddr[strings.ToLower(addr)] }

func (w *World) note(kind string, c *Conn, text string) {
	h := fnv.New64a()
	h.Write([]byte(kind))
	h.Write([]byte(text))
	id := 0
	if c != nil {
		id = c.ID
	}
	w.digest = simrt.Mix(w.digest ^ h.Sum64() ^ uint64(id)<<40 ^ uint64(w.S.Now()))
	if w.KeepLog {
		w.Logf("%s conn=%d %s", kind, id, text)
	}
}

// Note adds an event of the client side to the log and the digest.
func (w *World) Note(kind, text string) { w.note(kind, nil, text) }

func (w *World) Logf(f string, a ...interface{}) {
	if w.KeepLog && len(w.Log) < 20000 {
		w.Log = append(w.Log, fmt.Sprintf("%12.6f ", w.S.Now().Seconds())+fmt.Sprintf(f, a...))
	}
}

// Digest identifies the event history of the run so far.
func (w *World) Digest() uint64 { return w.digest }

// Violate records a broken property.
func (w *World) Violate(class, msg string) {
	if len(w.Violations) > 40 {
		return
	}
	for _, v := range w.Violations {
		if v.Class == class && v.Msg == msg {
			return
		}
	}
	w.Violations = append(w.Violations, Violation{class, msg, w.S.Now()})
	w.Logf("VIOLATION %s: %s", class, msg)
}

// Count counts an injected fault.
func (w *World) Count(kind string) { w.Faults[kind]++ }

func (w *World) touch(c *Conn) {
	t := w.S.Running()
	if t == nil {
		return
	}
	c.LastTask = t
	op, _ := t.Data.(*OpRun)
	if op == nil {
		return
	}
	c.LastOp = op
	if op.Returned {
		return
	}
	if w.OnTouch != nil {
		w.OnTouch(c, op)
	}
	for _, x := range op.Touched {
		if x == c {
			return
		}
	}
	op.Touched = append(op.Touched, c)
}

func (w *World) injected(c *Conn, ev, code, msg string) {
	f := Failure{w.S.Now(), code, msg, c, ev}
	c.Failures = append(c.Failures, f)
	if c.LastOp != nil && !c.LastOp.Returned {
		c.LastOp.Failures = append(c.LastOp.Failures, f)
	}
}

func (w *World) mayConnect(s *Server, cl *ClientCfg) bool {
	if cl.Kind == "routed" {
		return !s.Cfg.Hidden
	}
	return s.ID == cl.Srv
}

// OpenConns are the sockets the client has not closed.
func (w *World) OpenConns() []*Conn {
	var r []*Conn
	for c := range w.open {
		r = append(r, c)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}

func (w *World) benignDelay(f *Fault) bool {
	for _, o := range w.Sc.Others {
		if f.DurMs*4 > o.Timeout() {
			return false
		}
	}
	return f.DurMs*4 <= w.Sc.Client.Timeout()
}

// ---- faults

func (w *World) trigger(ev string, srv *Server, c *Conn, ss *session) []*Fault {
	var out []*Fault
	if w.healed {
		return nil
	}
	for _, f := range w.Sc.Faults {
		if f.On == "" || f.fired || !(f.On == ev || f.On == "any") || f.Srv >= 0 && f.Srv != srv.ID {
			continue
		}
		if f.On == "any" && (ev == "dial" || ev == "accept" || ev == "tls" || ev == "hs" || ev == "write" || ev == "wgoodbye") {
			continue
		}
		f.seen++
		n := f.N
		if n < 1 {
			n = 1
		}
		if f.seen < n {
			continue
		}
		f.fired = true
		w.LastFault = w.S.Now()
		ph := f.Phase
		if ph != "" {
			ph = "/" + ph
		}
		w.Count(f.Act + "@" + ev + ph)
		w.note("fault", c, f.Act+"@"+ev+ph)
		if ev == "dial" {
			w.applyServer(f, srv)
			continue
		}
		out = append(out, f)
	}
	return out
}

func (w *World) fireTimed(f *Fault) {
	if w.healed {
		return
	}
	f.fired = true
	w.LastFault = w.S.Now()
	w.Count(f.Act + "@time")
	w.note("fault", nil, f.Act+"@time")
	if f.Act == "roles" {
		w.applyServer(f, nil)
		return
	}
	var srvs []*Server
	if f.Srv >= 0 && f.Srv < len(w.Servers) {
		srvs = []*Server{w.Servers[f.Srv]}
	} else {
		srvs = w.Servers
	}
	for _, s := range srvs {
		switch f.Act {
		case "reset", "fin", "stall", "hole", "noread", "unasked": // every connection of that server
			for _, ss := range s.live() {
				w.applyConn(f, ss)
			}
		default:
			w.applyServer(f, s)
		}
	}
}

func (s *Server) live() []*session {
	var r []*session
	for _, x := range s.sessions {
		if !x.dead {
			r = append(r, x)
		}
	}
	s.sessions = append([]*session(nil), r...)
	return r
}

func (w *World) applyConn(f *Fault, ss *session) {
	w.LastFault = w.S.Now()
	c := ss.c
	dur := time.Duration(f.DurMs) * time.Millisecond
	switch f.Act {
	case "reset":
		c.taint("connection reset")
		ss.end("injected reset")
		c.serverRST(f.Arg&1 == 1)
	case "fin":
		c.taint("server closed the connection")
		ss.die("injected close", false)
	case "stall":
		c.taint("server stalled on this connection")
		ss.stalled = true
		if dur > 0 {
			w.S.After(dur, func() { ss.stalled = false; w.wake() })
		}
	case "hole":
		c.taint("connection black-holed")
		c.hole = true
		if dur > 0 {
			w.S.After(dur, func() { c.hole = false; c.heal() })
		}
	case "noread":
		c.taint("server stopped reading")
		ss.noread = true
		if dur > 0 {
			w.S.After(dur, func() { ss.noread = false; ss.resume() })
		}
	case "unasked": // bytes no request asked for, on a connection nothing is going on on
		if !ss.idle() || c.srvDone || c.Closed {
			return
		}
		c.taint("the server sent something nobody asked for")
		c.BadData = true
		c.UnaskedAt = -1
		b := []byte{0, 0}
		switch f.Arg {
		case 1:
			b = ss.frame(success(map[string]interface{}{"fields": []interface{}{"unasked"}}))
		case 2:
			b = ss.frame(reply{tag: 0x71, fields: []interface{}{[]interface{}{int64(666)}}})
		case 3:
			b = []byte{0}
		}
		ss.write(b, func() { c.UnaskedAt = w.S.Now() })
	case "delay", "mangle", "fail", "version", "garbage", "ovbad":
	default:
		w.applyServer(f, ss.srv)
	}
}

func (w *World) applyServer(f *Fault, s *Server) {
	dur := time.Duration(f.DurMs) * time.Millisecond
	until := func(fn func()) {
		if dur > 0 {
			w.S.After(dur, func() { w.LastFault = w.S.Now(); fn() })
		}
	}
	switch f.Act {
	case "roles":
		for i, r := range f.Roles {
			if i < len(w.Servers) && r != "keep" {
				w.Servers[i].Role = r
			}
		}
		w.TopoChange = append(w.TopoChange, w.S.Now())
	case "crash":
		s.crash(f.Arg&2 == 2, f.Arg&1 == 1)
		until(func() { s.restart() })
	case "srvstall":
		s.stall = true
		for _, ss := range s.live() {
			ss.c.taint("server stalled")
		}
		until(func() { s.stall = false; s.noteHealth(); w.wake() })
	case "srvhole":
		s.hole = true
		for _, ss := range s.live() {
			ss.c.taint("network partition")
		}
		until(func() { s.unhole() })
	case "refuse":
		s.refuse = true
		until(func() { s.refuse = false; s.noteHealth() })
	case "authfail":
		s.authFail = true
		until(func() { s.authFail = false; s.noteHealth() })
	}
	if s != nil {
		s.noteHealth()
	}
}

func (s *Server) crash(silent, drop bool) {
	if s.down {
		return
	}
	s.down = true
	s.silent = silent
	for _, ss := range s.live() {
		ss.c.taint("server crashed")
		ss.end("server crashed")
		if !silent {
			ss.c.serverRST(drop)
		} else {
			ss.c.srvDone = true
		}
	}
}

func (s *Server) restart() {
	if !s.down {
		return
	}
	s.down, s.silent = false, false
	s.unhole()
}

func (s *Server) unhole() {
	s.hole = false
	s.noteHealth()
	if s.holed() {
		return
	}
	fs := s.onHeal
	s.onHeal = nil
	for _, f := range fs {
		f()
	}
	for _, c := range s.w.Conns {
		if c.Srv == s && !c.hole {
			c.heal()
		}
	}
	s.w.wake()
}

// wake lets everything that waited for the end of a stall go on.
func (w *World) wake() {
	ws := w.waiters
	w.waiters = nil
	for _, f := range ws {
		f()
	}
	for _, c := range w.Conns {
		if c.sess != nil && !c.sess.dead {
			c.sess.resume()
		}
	}
}

// HealAll ends every fault in force; no further fault fires.
func (w *World) HealAll() {
	w.healed = true
	w.note("heal", nil, "")
	for _, s := range w.Servers {
		if s.stall || s.refuse || s.authFail || s.hole || s.down {
			w.LastFault = w.S.Now()
		}
		s.stall, s.refuse, s.authFail = false, false, false
		s.restart()
		s.unhole()
	}
	for _, c := range w.Conns {
		if c.hole {
			c.hole = false
			c.heal()
		}
		if c.sess != nil && !c.sess.dead {
			c.sess.stalled, c.sess.noread = false, false
		}
	}
	w.wake()
}

// UnhealthyDuring reports whether any (or the given) server had a server-wide
// fault at some time in [from, to].
func (w *World) UnhealthyDuring(srv int, from, to time.Duration) bool {
	for _, iv := range w.Unhealthy {
		if (srv < 0 || iv.Srv == srv) && iv.From <= to && iv.To >= from {
			return true
		}
	}
	for _, s := range w.Servers {
		if (srv < 0 || s.ID == srv) && s.badSince >= 0 && s.badSince <= to {
			return true
		}
	}
	return false
}

// TaintedDuring reports whether some connection was hit by a fault in [from, to].
func (w *World) TaintedDuring(from, to time.Duration) bool {
	for _, c := range w.Conns {
		if c.Taint != "" && c.TaintAt >= from && c.TaintAt <= to {
			return true
		}
	}
	return false
}

// SetChunk records that the caller changed the chunk size of this connection.
func (c *Conn) SetChunk(n int) { c.chunks = append(c.chunks, chunkSet{c.sentSegs, n}) }

type chunkSet struct{ after, size int }

// GivenBack: what the borrower set lasts until the next borrower has the
// connection, or until now.
func (c *Conn) GivenBack() {
	if n := len(c.chunks); n > 0 {
		lim := c.Cl.Chunk
		if last := c.chunks[n-1].size; last == 0 || lim == 0 {
			lim = 65535
		} else if last > lim {
			lim = last
		}
		c.SetChunk(lim)
	}
}

// NewHolder: whatever the last one set, the configuration is in force again.
func (c *Conn) NewHolder() {
	if len(c.chunks) > 0 {
		lim := c.Cl.Chunk
		if lim == 0 {
			lim = 65535
		}
		c.SetChunk(lim)
	}
}

func (c *Conn) chunkLimit(seq int) int {
	lim := 65535
	if n := c.Cl.Chunk; n > 0 {
		lim = n
	}
	for _, s := range c.chunks {
		if seq > s.after {
			lim = s.size
		}
	}
	return lim
}

// ---- what the server side of a connection looks like (for oracles)

func (c *Conn) State() string {
	if c.sess == nil {
		return ""
	}
	return c.sess.state
}
func (c *Conn) SessionDead() (bool, string) {
	if c.sess == nil {
		return true, "never accepted"
	}
	return c.sess.dead, c.sess.deadWhy
}
func (c *Conn) OpenTx() *Tx {
	if c.sess == nil {
		return nil
	}
	return c.sess.tx
}
func (c *Conn) Authed() bool { return c.sess != nil && c.sess.authed }

// UnderWay: something the client has sent has not reached the server yet.
func (c *Conn) UnderWay() bool { return c.unread > 0 }

func (c *Conn) SaidGoodbye() bool { return c.sess != nil && c.sess.goodbye }
func (c *Conn) Version() int {
	if c.sess == nil {
		return 0
	}
	return c.sess.ver
}
func (c *Conn) RequestsSeen() int {
	if c.sess == nil {
		return 0
	}
	return c.sess.requests
}
func (c *Conn) RefusedVersion() bool { return c.sess != nil && c.sess.refuseVersion }
func (c *Conn) ResetFailed() bool    { return c.sess != nil && c.sess.resetFail }
func (c *Conn) Unread() int {
	n := 0
	for _, b := range c.rx {
		n += len(b)
	}
	return n
}

// HasBytesAhead reports bytes the client has not read although every earlier
// exchange on the connection is over.
func (w *World) HasBytesAhead(c *Conn) bool { return !c.BadData && c.Unread() > 0 }

// WirePartial reports that the record of odd replies does not cover everything.
func (c *Conn) WirePartial() bool { return !c.keepWire || c.deep }

// Conn is the connection a transaction was begun on.
func (t *Tx) Conn() *Conn { return t.Sess.c }

// RolesComplete reports whether the cluster now has a leader and a reader.
func (w *World) RolesComplete() bool {
	if w.Sc.Client.Kind != "routed" {
		return true
	}
	l, f := false, false
	for _, s := range w.Servers {
		if s.Cfg.Hidden {
			continue
		}
		l = l || s.Role == "leader"
		f = f || s.Role == "follower" || s.Role == "read_replica"
	}
	return l && f
}

// ---- TLS

func (w *World) tlsConfig(kind string) *tls.Config {
	name := kind
	if kind == "mutual" {
		name = "good"
	}
	cert, err := tls.X509KeyPair(CertFile(name+".pem"), CertFile(name+".key"))
	if err != nil {
		panic(err)
	}
	cfg := &tls.Config{Certificates: []tls.Certificate{cert}, MinVersion: tls.VersionTLS10, SessionTicketsDisabled: true}
	if kind == "mutual" {
		p := x509.NewCertPool()
		p.AppendCertsFromPEM(CertFile("ca.pem"))
		cfg.ClientCAs = p
		cfg.ClientAuth = tls.RequireAndVerifyClientCert
	}
	return cfg
}

// ---- cluster overview

func (ss *session) overview(m *message, onReply []*Fault) []reply {
	w := ss.w
	rep := &Report{Srv: ss.srv.ID, OK: true, Leaders: map[string]bool{}, Readers: map[string]bool{}, conn: ss.c}
	var rows [][]interface{}
	nth := map[string]int{}
	for i, s := range w.Servers {
		if s.Role == "" || s.Cfg.Hidden {
			continue
		}
		addrs := []interface{}{"bolt://" + s.Addr, "http://" + net.JoinHostPort(s.Cfg.Host, "7474"), "https://" + net.JoinHostPort(s.Cfg.Host, "7473")}
		switch k := (int(w.Sc.Seed&0xff) + i) % 4; k { // the Bolt address need not come first
		case 1, 2:
			addrs[0], addrs[k] = addrs[k], addrs[0]
		}
		id := fmt.Sprintf("id-%d", i)
		if w.Sc.Seed>>9&7 == 0 { // a member that comes back under another address keeps its id
			id = fmt.Sprintf("%s-%d", s.Role, nth[s.Role])
			nth[s.Role]++
		}
		role := strings.ToUpper(s.Role)
		var row []interface{}
		if ss.ver >= 4 {
			row = []interface{}{id, addrs, map[string]interface{}{"neo4j": role, "system": role}, []interface{}{}}
		} else {
			row = []interface{}{id, addrs, role, []interface{}{}, "default"}
		}
		rows = append(rows, row)
		if s.Role == "leader" {
			rep.Leaders[s.Addr] = true
		} else {
			rep.Readers[s.Addr] = true
		}
	}
	if n := len(rows); n > 1 && w.Sc.Seed>>12&7 == 0 { // in no particular order
		k := len(w.Reports) % n
		rows = append(append([][]interface{}(nil), rows[k:]...), rows[:k]...)
	}
	for _, f := range onReply {
		if f.Act != "ovbad" || len(rows) == 0 {
			continue
		}
		rep.OK = false
		w.Count("overview-malformed")
		i := int(f.Arg>>8) % len(rows)
		row := append([]interface{}(nil), rows[i]...)
		switch f.Arg & 7 {
		case 0:
			row = row[:len(row)-1]
		case 1:
			row[0] = int64(7)
		case 2:
			row[1] = "bolt://" + w.Servers[0].Addr
		case 3:
			row[1] = []interface{}{int64(1), nil}
		case 4, 5:
			odd := []string{"JESTER", "", "UNKNOWN", "LEADERS", "FOLLOWER2"}[int(f.Arg>>24&0xffff)%5]
			if ss.ver >= 4 {
				row[2] = map[string]interface{}{"system": odd}
			} else {
				row[2] = odd
			}
		case 6:
			if ss.ver >= 4 {
				row[2] = map[string]interface{}{"neo4j": "LEADER"}
			} else {
				row[2] = int64(3)
			}
		case 7:
			ss.stream = nil
			w.injected(ss.c, "overview", "Neo.DatabaseError.General.UnknownError", "overview failed")
			return []reply{ss.fail("Neo.DatabaseError.General.UnknownError", "overview failed")}
		}
		rows[i] = row
	}
	ss.stream = &stream{rows: rows, final: map[string]interface{}{"type": "r"}, over: rep}
	ss.state = stStream
	f := []interface{}{"id", "addresses", "role", "groups", "database"}
	if ss.ver >= 4 {
		f = []interface{}{"id", "addresses", "databases", "groups"}
	}
	return []reply{success(ss.runMeta(f))}
}

// MustServe returns servers that every report in force at some time in
// [from, to] names for the mode, nil if that is not certain.
func (w *World) MustServe(write bool, from, to time.Duration) []*Server {
	first := -1
	for i, r := range w.Reports {
		if r.OK && r.Sure && r.DeliveredAt <= from {
			first = i
		}
	}
	if first < 0 {
		return nil
	}
	n := map[string]int{}
	all := 0
	for _, r := range w.Reports[first:] {
		if r.SentAt > to {
			continue
		}
		if !r.OK {
			return nil
		}
		all++
		set := r.Readers
		if write {
			set = r.Leaders
		}
		for a := range set {
			n[a]++
		}
	}
	var out []*Server
	for _, s := range w.Servers {
		if n[s.Addr] == all {
			out = append(out, s)
		}
	}
	return out
}

// SteadyDuring says whether nothing was wrong with a server and no connection
// to it was hit by a fault in [from, to].
func (w *World) SteadyDuring(s *Server, from, to time.Duration) bool {
	if w.UnhealthyDuring(s.ID, from, to) {
		return false
	}
	for _, c := range w.Conns {
		if c.Srv == s && c.Taint != "" && c.TaintAt >= from && c.TaintAt <= to {
			return false
		}
	}
	return true
}

// BadReport: some topology report went over a connection with odd replies.
func (w *World) BadReport() bool {
	for _, r := range w.Reports {
		if r.conn.BadData {
			return true
		}
	}
	return false
}

// Deep: something nested too deeply to be looked at was sent.
func (c *Conn) Deep() bool { return c.deep }

// SureReport: the client certainly received a topology report in [from, to].
func (w *World) SureReport(from, to time.Duration) bool {
	for _, r := range w.Reports {
		if r.OK && r.Sure && r.DeliveredAt >= from && r.DeliveredAt <= to {
			return true
		}
	}
	return false
}

// AllowedFor returns the union of the addresses that reports in force at some
// time in [from, to] name for the mode, and whether any such report exists.
func (w *World) AllowedFor(write bool, from, to time.Duration) (map[string]bool, bool) {
	first := 0
	for i, r := range w.Reports {
		if r.OK && r.Sure && r.DeliveredAt <= from {
			first = i
		}
	}
	out := map[string]bool{}
	any := false
	for i := first; i < len(w.Reports); i++ {
		r := w.Reports[i]
		if !r.OK || !r.Delivered || r.DeliveredAt > to {
			continue
		}
		any = true
		set := r.Readers
		if write {
			set = r.Leaders
		}
		for a := range set {
			out[a] = true
		}
	}
	return out, any
}
