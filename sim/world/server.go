package world

import (
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"regexp"
	"strconv"
	"strings"
	"time"

	"verif.local/sim/simrt"
)

// Server is one simulated database server process.
type Server struct {
	w    *World
	ID   int
	Cfg  *ServerCfg
	Addr string
	Role string

	down      bool // process not running
	silent    bool // host unreachable as well
	refuse    bool
	hole      bool
	stall     bool
	authFail  bool
	badSince  time.Duration // -1: healthy
	onHeal    []func()
	sessions  []*session
	Handshook int
}

func (s *Server) refusing() bool { return (s.down && !s.silent) || s.refuse }
func (s *Server) holed() bool    { return s.hole || (s.down && s.silent) }

// Healthy reports whether nothing server-wide is wrong.
func (s *Server) Healthy() bool { return !s.down && !s.refuse && !s.hole && !s.stall && !s.authFail }

func (s *Server) noteHealth() {
	now := s.w.S.Now()
	if s.Healthy() {
		if s.badSince >= 0 {
			s.w.Unhealthy = append(s.w.Unhealthy, Interval{s.ID, s.badSince, now})
			s.badSince = -1
		}
	} else if s.badSince < 0 {
		s.badSince = now
	}
}

type Interval struct {
	Srv      int
	From, To time.Duration
}

// ---- session: one accepted connection

const (
	stConnected = "CONNECTED" // before the version handshake
	stNew       = "NEGOTIATED"
	stReady     = "READY"
	stStream    = "STREAMING"
	stTx        = "TX_READY"
	stTxStream  = "TX_STREAMING"
	stFailed    = "FAILED"
	stDefunct   = "DEFUNCT"
)

type inSeg struct {
	b      []byte
	sentAt time.Duration
	seq    int
}

type message struct {
	raw      []byte
	maxChunk int
	chunks   int
	sentAt   time.Duration // when its first byte was sent
	seq      int
	tag      byte
	fields   []interface{}
	bad      error
}

// Tx is a server-side explicit transaction.
type Tx struct {
	ID        int
	Sess      *session
	DB        string
	Mode      string
	Execs     []*Exec
	State     string // open, failed, committed, rolledback
	EndReason string
	BeganAt   time.Duration
	EndedAt   time.Duration
}

// Exec is one statement the server accepted for execution.
type Exec struct {
	Tag     int
	Srv     *Server
	Conn    *Conn
	DB      string
	Mode    string // the access mode declared for it
	Tx      *Tx
	At      time.Duration
	Applied int
	Failed  bool
	Done    bool // its result was completely produced
}

type session struct {
	w             *World
	srv           *Server
	c             *Conn
	ver           int
	state         string
	inbuf         []byte
	cur           *message
	need          int // bytes left in the current chunk; -1: reading a header
	queue         []*message
	busy          bool
	dead          bool
	deadWhy       string
	eof           bool
	tlsEOF        bool
	stalled       bool
	noread        bool
	kernel        []inSeg
	tls           *tls.Conn
	sc            *srvConn
	authed        bool
	goodbye       bool
	tx            *Tx
	stream        *stream
	failDelivered bool
	failSeen      bool
	resetFail     bool
	requests      int
	hsSent        []byte
	refuseVersion bool
	authDenied    bool
	lastExec      *Exec
}

type stream struct {
	ex    *Exec
	spec  *Spec
	rows  [][]interface{}
	next  int
	final map[string]interface{}
	over  *Report
	txEnd string // v1/v2: BEGIN, COMMIT, ROLLBACK pseudo statement
	late  *Fault // its failure, reported when the result is pulled
}

func (s *Server) accept(c *Conn) {
	ss := &session{w: s.w, srv: s, c: c, state: stConnected, need: -1}
	c.sess = ss
	s.sessions = append(s.sessions, ss)
	if s.stall {
		c.taint("accepted by a stalled server")
	}
	if s.holed() {
		c.taint("connected into a black hole")
	}
	if s.down { // between its SYN-ACK and now
		c.taint("server crashed")
		ss.end("server crashed")
		if !s.silent {
			c.serverRST(false)
		} else {
			c.srvDone = true
		}
		return
	}
	for _, f := range s.w.trigger("accept", s, c, nil) {
		s.w.applyConn(f, ss)
	}
	if s.Cfg.TLS != "" && !ss.dead {
		ss.startTLS()
	}
}

// idle: the session waits for a request and nothing is under way.
func (ss *session) idle() bool {
	return ss.authed && !ss.dead && !ss.busy && !ss.blocked() && ss.state == stReady && ss.cur == nil && len(ss.queue) == 0 && len(ss.inbuf) == 0 && ss.stream == nil
}

func (ss *session) blocked() bool { return ss.stalled || ss.srv.stall || ss.srv.down }

// arrive: bytes from the client reached the server's kernel.
func (ss *session) arrive(b []byte, sentAt time.Duration) {
	ss.c.upSeq++
	g := inSeg{b, sentAt, ss.c.upSeq}
	if ss.srv.down && !ss.dead {
		return
	}
	if ss.dead {
		ss.c.unread -= len(b)
		ss.c.serverRST(false)
		return
	}
	if ss.noread || ss.blocked() || len(ss.kernel) > 0 {
		ss.kernel = append(ss.kernel, g)
		return
	}
	ss.consume(g)
}

func (ss *session) consume(g inSeg) {
	ss.c.unread -= len(g.b)
	ss.c.Progress = ss.w.S.Now()
	if ss.sc != nil {
		ss.sc.in = append(ss.sc.in, g.b...)
		ss.sc.sentAt = g.sentAt
		return
	}
	ss.input(g.b, g.sentAt)
}

func (ss *session) resume() {
	if ss.dead || ss.blocked() {
		return
	}
	if !ss.noread {
		k := ss.kernel
		ss.kernel = nil
		for _, g := range k {
			if ss.dead {
				return
			}
			ss.consume(g)
		}
	}
	ss.kick()
}

// peerGone: the client closed, or the transport died.
func (ss *session) peerGone(why string) {
	if ss.dead {
		return
	}
	ss.end(why)
}

// gotEOF: the client closed in an orderly way; what it sent before still counts.
func (ss *session) gotEOF() {
	ss.eof = true
	ss.kick()
}

func (ss *session) end(why string) {
	if ss.dead {
		return
	}
	ss.dead = true
	ss.deadWhy = why
	if ss.tx != nil && ss.tx.State == "open" || ss.tx != nil && ss.tx.State == "failed" {
		ss.endTx("rolledback", why)
	}
	ss.tx = nil
	ss.stream = nil
	ss.w.note("session-end", ss.c, why)
}

func (ss *session) endTx(state, why string) {
	t := ss.tx
	t.State = state
	t.EndReason = why
	t.EndedAt = ss.w.S.Now()
	ss.tx = nil
}

// input: plain Bolt bytes.
func (ss *session) input(b []byte, sentAt time.Duration) {
	ss.inbuf = append(ss.inbuf, b...)
	if ss.state == stConnected {
		if len(ss.inbuf) < 20 {
			return
		}
		hs := append([]byte(nil), ss.inbuf[:20]...)
		ss.inbuf = ss.inbuf[20:]
		ss.hsSent = hs
		ss.handshake(hs, sentAt)
	}
	for !ss.dead && ss.state != stConnected {
		if ss.cur == nil {
			ss.cur = &message{sentAt: sentAt, seq: ss.c.upSeq}
			ss.need = -1
		}
		if ss.need < 0 {
			if len(ss.inbuf) < 2 {
				if len(ss.inbuf) == 0 && len(ss.cur.raw) == 0 {
					ss.cur = nil
				}
				return
			}
			n := int(ss.inbuf[0])<<8 | int(ss.inbuf[1])
			ss.inbuf = ss.inbuf[2:]
			if n == 0 {
				m := ss.cur
				ss.cur = nil
				ss.arrived(m)
				continue
			}
			if n > ss.cur.maxChunk {
				ss.cur.maxChunk = n
			}
			ss.cur.chunks++
			ss.need = n
		}
		k := len(ss.inbuf)
		if k == 0 {
			return
		}
		if k > ss.need {
			k = ss.need
		}
		ss.cur.raw = append(ss.cur.raw, ss.inbuf[:k]...)
		ss.inbuf = ss.inbuf[k:]
		ss.need -= k
		if ss.need == 0 {
			ss.need = -1
		}
	}
}

func (ss *session) handshake(hs []byte, sentAt time.Duration) {
	w := ss.w
	if ss.c.Cl.TLS && ss.sc == nil {
		ss.c.taint("TLS to a server without TLS")
		ss.die("not bolt", true)
		return
	}
	if string(hs[:4]) != "\x60\x60\xb0\x17" {
		w.Violate("proto", fmt.Sprintf("handshake starts with %x instead of 6060b017", hs[:4]))
		ss.die("bad handshake", true)
		return
	}
	offers := map[int]bool{}
	choice := 0
	for i := 0; i < 4; i++ {
		v := int(hs[4+4*i])<<24 | int(hs[5+4*i])<<16 | int(hs[6+4*i])<<8 | int(hs[7+4*i])
		if v == 0 {
			continue
		}
		if v > 4 {
			w.Violate("proto", fmt.Sprintf("the client offers protocol version %#x", v))
		}
		offers[v] = true
		if choice == 0 {
			for _, sv := range ss.srv.Cfg.Versions {
				if sv == v {
					choice = v
				}
			}
		}
	}
	for v := 1; v <= 4; v++ {
		if cl := ss.c.Cl; offers[v] != cl.Allows(v) && !(cl.Allows(1) && cl.Allows(4)) {
			w.Violate("config", fmt.Sprintf("the client's options allow version %d: %v, it offers it: %v", v, cl.Allows(v), offers[v]))
		} else if !offers[v] && cl.Allows(v) {
			w.Violate("proto", fmt.Sprintf("the client does not offer version %d, which it supports (offer %x)", v, hs[4:]))
		}
	}
	reply := []byte{0, 0, 0, byte(choice)}
	ss.state = stNew
	ss.ver = choice
	cut := -1
	var after []*Fault
	for _, f := range w.trigger("hs", ss.srv, ss.c, ss) {
		switch f.Act {
		case "version":
			v := uint32(f.Arg)
			reply = []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
			ok := v >= 1 && v <= 4 && ss.c.Cl.Allows(int(v))
			if !ok {
				ss.refuseVersion = true
				ss.c.BadData = true
				ss.c.taint("server chose version " + strconv.Itoa(int(v)))
			} else {
				ss.ver = int(v)
				choice = ss.ver
			}
		case "garbage":
			r := simrt.NewRNG(uint64(f.Arg))
			reply = []byte("HTTP")
			if r.Intn(2) == 0 {
				for i := range reply {
					reply[i] = byte(r.Uint64())
				}
				reply[0] |= 1
			}
			ss.refuseVersion = true
			ss.c.BadData = true
			ss.c.taint("garbage handshake")
		case "delay":
			if !w.benignDelay(f) {
				ss.c.taint("delayed")
			}
			ss.busy = true
			d := time.Duration(f.DurMs) * time.Millisecond
			r := reply
			w.S.After(d, func() {
				ss.busy = false
				if !ss.dead {
					ss.write(r, nil)
					ss.kick()
				}
			})
			return
		default:
			if f.Phase == "mid" && f.cuts() {
				cut = 1 + int(f.Arg)%3
				after = append(after, f)
			} else {
				w.applyConn(f, ss)
			}
		}
	}
	if ss.dead {
		return
	}
	if choice == 0 && !ss.refuseVersion {
		ss.refuseVersion = true
		ss.c.taint("no common version")
	}
	send := func() {
		if ss.dead {
			return
		}
		if cut > 0 {
			ss.write(reply[:cut], nil)
			for _, f := range after {
				w.applyConn(f, ss)
			}
			ss.remainder(reply[cut:])
			return
		}
		ss.write(reply, nil)
		if ss.refuseVersion && reply[3] == 0 {
			ss.finSoon("no common version")
		}
	}
	if ss.blocked() {
		ss.busy = true
		ss.onResume(func() { ss.busy = false; send() })
		return
	}
	send()
}

func (ss *session) onResume(fn func()) {
	// run fn when the stall ends
	var poll func()
	poll = func() {
		if ss.dead {
			return
		}
		if ss.blocked() {
			ss.w.waiters = append(ss.w.waiters, poll)
			return
		}
		fn()
		ss.kick()
	}
	ss.w.waiters = append(ss.w.waiters, poll)
}

func (ss *session) die(why string, rst bool) {
	if ss.dead {
		return
	}
	ss.end(why)
	if rst {
		ss.c.serverRST(false)
	} else {
		ss.c.serverFIN()
	}
}

func (ss *session) finSoon(why string) {
	ss.w.S.After(2*time.Millisecond, func() { ss.die(why, false) })
}

// write sends bytes to the client (through TLS where configured).
func (ss *session) write(b []byte, delivered func()) {
	if ss.dead {
		return
	}
	if ss.c.keepWire && !ss.c.deep {
		ss.c.wire = append(ss.c.wire, b...)
	}
	if ss.tls != nil {
		ss.tls.Write(b)
	} else {
		ss.c.sendDown(b, nil)
	}
	if delivered != nil {
		ss.c.deliverDown(ss.c.lat, 0, delivered)
	}
}

var nameOf = map[byte]string{0x01: "HELLO", 0x02: "GOODBYE", 0x0E: "ACK_FAILURE", 0x0F: "RESET", 0x10: "RUN", 0x11: "BEGIN", 0x12: "COMMIT", 0x13: "ROLLBACK", 0x2F: "DISCARD", 0x3F: "PULL"}

// arrived: one whole message.
func (ss *session) arrived(m *message) {
	w := ss.w
	ss.requests++
	if ss.refuseVersion {
		w.Violate("proto", fmt.Sprintf("the server did not choose a supported version, yet the client sent a message: %x", clip(m.raw, 30)))
		ss.die("message after refused version", true)
		return
	}
	if lim := ss.c.chunkLimit(m.seq); m.maxChunk > lim {
		w.Violate("chunk", fmt.Sprintf("a chunk of %d bytes was sent although the configured chunk size is %d", m.maxChunk, lim))
	}
	if len(m.raw) == 0 {
		m.bad = fmt.Errorf("empty message")
	} else {
		v, err := DecodeAll(m.raw)
		if err != nil {
			m.bad = err
		} else if st, ok := v.(*Struct); !ok {
			m.bad = fmt.Errorf("not a structure: %s", Show(v))
		} else {
			m.tag, m.fields = st.Tag, st.Fields
		}
	}
	if m.bad != nil {
		w.Violate("request-corrupt", fmt.Sprintf("the server received a message that is not well formed (%v): %d bytes %x", m.bad, len(m.raw), clip(m.raw, 40)))
		ss.die("undecodable request", true)
		return
	}
	if m.tag == 0x0F && ss.state == stFailed && ss.failDelivered {
		ss.c.failuresRead = len(ss.c.Failures)
	}
	ss.queue = append(ss.queue, m)
	ss.kick()
}

// kick starts processing the next queued message.
func (ss *session) kick() {
	if ss.dead || ss.busy || ss.blocked() {
		return
	}
	if len(ss.queue) == 0 {
		if ss.eof && len(ss.kernel) == 0 && (ss.sc == nil || len(ss.sc.in) == 0 && (ss.tls == nil || ss.tlsEOF)) {
			ss.end("closed by client")
		}
		return
	}
	ss.busy = true
	d := time.Duration(0)
	if p := ss.srv.Cfg.ProcUs; p > 0 {
		d = time.Duration(ss.c.rng.Intn(p+1)) * time.Microsecond
	}
	ss.w.S.After(d, func() { ss.step() })
}

func (ss *session) step() {
	if ss.dead {
		return
	}
	if ss.blocked() {
		ss.busy = false
		return
	}
	m := ss.queue[0]
	ss.queue = ss.queue[1:]
	ss.process(m)
}

// reply is one message of an answer.
type reply struct {
	tag       byte
	fields    []interface{}
	raw       []byte // overrides tag/fields
	wire      []byte // overrides the framing too
	pause     time.Duration
	delivered func()
}

func (ss *session) eventOf(m *message) string {
	n := nameOf[m.tag]
	if n == "RUN" && len(m.fields) > 0 {
		if q, ok := m.fields[0].(string); ok {
			if ss.ver <= 2 {
				switch q {
				case "BEGIN", "COMMIT", "ROLLBACK":
					return strings.ToLower(q)
				}
			}
			if isOverview(q) {
				return "overview"
			}
		}
	}
	return strings.ToLower(n)
}

func isOverview(q string) bool {
	return strings.Contains(strings.ToLower(q), "dbms.cluster.overview")
}

func (ss *session) process(m *message) {
	w := ss.w
	ev := ss.eventOf(m)
	w.note("req", ss.c, ev)
	w.Requests++
	ss.checkFields(m)
	var forced *Fault
	var onReply, after []*Fault
	for _, f := range w.trigger(ev, ss.srv, ss.c, ss) {
		switch {
		case f.Act == "fail":
			forced = f
		case f.Act == "mangle" || f.Act == "delay" || f.Act == "ovbad":
			onReply = append(onReply, f)
		case f.Phase == "after" || f.Phase == "mid":
			after = append(after, f)
		default:
			w.applyConn(f, ss)
		}
	}
	if ss.dead {
		return
	}
	if ss.blocked() { // stalled while holding this request
		ss.queue = append([]*message{m}, ss.queue...)
		ss.busy = false
		return
	}
	out, close := ss.handle(m, ev, forced, onReply)
	if ss.dead {
		return
	}
	cut := false
	var cutF []*Fault
	for _, f := range after {
		if f.Phase == "after" || !f.cuts() {
			w.applyConn(f, ss)
		} else {
			cut = true
			cutF = append(cutF, f)
		}
	}
	if ss.dead {
		return
	}
	delay := time.Duration(0)
	for _, f := range onReply {
		switch f.Act {
		case "delay":
			delay += time.Duration(f.DurMs) * time.Millisecond
			if !w.benignDelay(f) {
				ss.c.taint("delayed reply")
			}
		case "mangle":
			if len(out) > 0 {
				ss.c.taint("mangled reply")
				ss.c.BadData = true
				out = mangle(out, f, ss)
			}
		}
	}
	if cut {
		var all []byte
		for _, r := range out {
			all = append(all, ss.frame(r)...)
		}
		n := 0
		if len(all) > 0 {
			n = int(uint64(cutF[0].Arg) % uint64(len(all)))
		}
		rest := all[n:]
		all = all[:n]
		finish := func() {
			if ss.dead {
				return
			}
			if len(all) > 0 {
				ss.write(all, nil)
			}
			for _, f := range cutF {
				w.applyConn(f, ss)
			}
			ss.remainder(rest)
			ss.busy = false
			ss.kick()
		}
		if ss.blocked() {
			ss.onResume(finish)
		} else {
			finish()
		}
		return
	}
	var emit func(i int)
	emit = func(i int) {
		if ss.dead {
			return
		}
		if ss.blocked() {
			ss.onResume(func() { emit(i) })
			return
		}
		var buf []byte
		var cbs []func()
		for ; i < len(out); i++ {
			if out[i].pause > 0 && (len(buf) > 0 || len(cbs) > 0) {
				break
			}
			if p := out[i].pause; p > 0 {
				out[i].pause = 0
				j := i
				w.S.After(p, func() { emit(j) })
				return
			}
			buf = append(buf, ss.frame(out[i])...)
			if out[i].delivered != nil {
				cbs = append(cbs, out[i].delivered)
			}
			if ss.c.rng.Intn(4) == 0 && len(buf) > 0 {
				ss.write(buf, nil)
				buf = nil
			}
		}
		if len(buf) > 0 || len(cbs) > 0 {
			var cb func()
			if len(cbs) > 0 {
				cb = func() {
					for _, f := range cbs {
						f()
					}
				}
			}
			ss.write(buf, cb)
		}
		if i < len(out) {
			w.S.After(0, func() { emit(i) })
			return
		}
		ss.busy = false
		if close != "" {
			ss.finSoon(close)
		}
		ss.kick()
	}
	if delay > 0 {
		w.S.After(delay, func() { emit(0) })
	} else {
		emit(0)
	}
}

// frame is a message in chunks, the way this server chunks.
func (ss *session) frame(r reply) []byte {
	if r.wire != nil {
		return r.wire
	}
	p := r.raw
	if p == nil {
		p = Enc(nil, &Struct{r.tag, r.fields})
	}
	max := 65535
	rnd := false
	switch ss.srv.Cfg.Chunk {
	case "small":
		max = 7
		if len(p) > 2000 {
			max = len(p)/150 + 1
		}
	case "rand":
		rnd = true
	case "page":
		max = 8192
	}
	var b []byte
	for len(p) > 0 {
		n := len(p)
		if n > max {
			n = max
		}
		if rnd && n > 1 {
			n = 1 + ss.c.rng.Intn(n)
		}
		b = append(b, byte(n>>8), byte(n))
		b = append(b, p[:n]...)
		p = p[n:]
	}
	return append(b, 0, 0)
}

func success(md map[string]interface{}) reply {
	if md == nil {
		md = map[string]interface{}{}
	}
	return reply{tag: 0x70, fields: []interface{}{md}}
}

func ignored() reply { return reply{tag: 0x7E} }

// fail makes the session fail and returns the FAILURE message.
func (ss *session) fail(code, msg string) reply {
	ss.state = stFailed
	ss.stream = nil
	ss.failDelivered = false
	if ss.tx != nil && ss.tx.State == "open" {
		ss.tx.State = "failed"
		ss.tx.EndReason = "statement failed"
	}
	r := reply{tag: 0x7F, fields: []interface{}{map[string]interface{}{"code": code, "message": msg}}}
	r.delivered = func() { ss.failDelivered = true }
	return r
}

var tagRe = regexp.MustCompile(`^Q(\d+) `)

// Permitted reports the states in which a message is allowed.
func (ss *session) permitted(ev string) bool {
	switch ss.state {
	case stNew:
		return ev == "hello"
	case stReady:
		return ev == "run" || ev == "overview" || ev == "begin" || ev == "reset" || ev == "goodbye"
	case stStream:
		return ev == "pull" || ev == "discard" || ev == "reset" || ev == "goodbye"
	case stTx:
		if ss.ver <= 2 && ev == "begin" {
			return false
		}
		return ev == "run" || ev == "overview" || ev == "commit" || ev == "rollback" || ev == "reset" || ev == "goodbye"
	case stTxStream:
		return ev == "pull" || ev == "discard" || ev == "reset" || ev == "goodbye" || ((ev == "run" || ev == "overview") && ss.ver == 4)
	case stFailed:
		return true // decided by the caller
	}
	return false
}

func (ss *session) handle(m *message, ev string, forced *Fault, onReply []*Fault) (out []reply, closeWhy string) {
	w := ss.w
	exists := false
	switch {
	case ss.ver <= 2:
		exists = m.tag == 0x01 || m.tag == 0x0E || m.tag == 0x0F || m.tag == 0x10 || m.tag == 0x2F || m.tag == 0x3F
	default:
		exists = m.tag == 0x01 || m.tag == 0x02 || m.tag == 0x0F || m.tag == 0x10 || m.tag == 0x11 || m.tag == 0x12 || m.tag == 0x13 || m.tag == 0x2F || m.tag == 0x3F
	}
	if !exists {
		w.Violate("proto", fmt.Sprintf("message %#x does not exist in Bolt version %d", m.tag, ss.ver))
		ss.die("unknown message", true)
		return nil, ""
	}
	if ss.state == stFailed {
		switch ev {
		case "reset", "goodbye":
		case "ack_failure":
		case "pull", "discard":
			return []reply{ignored()}, ""
		default:
			if ss.failDelivered && !ss.c.BadData {
				w.Violate("proto", fmt.Sprintf("%s sent in the FAILED state, after the failure had been received, without RESET", strings.ToUpper(ev)))
			}
			w.note("ignored", ss.c, ev)
			return []reply{ignored()}, ""
		}
	} else if !ss.permitted(ev) {
		if !ss.c.BadData {
			w.Violate("proto", fmt.Sprintf("Bolt v%d: %s is not permitted in server state %s", ss.ver, strings.ToUpper(ev), ss.state))
		}
		if ev == "run" && (ss.state == stTxStream || ss.state == stStream) || ss.state == stDefunct || ss.state == stNew {
			ss.die("protocol violation", true)
			return nil, ""
		}
		return []reply{ss.fail("Neo.ClientError.Request.Invalid", "Message "+ev+" cannot be handled by a session in the "+ss.state+" state.")}, ""
	}

	if forced != nil {
		code, msg := forced.failure()
		switch ev {
		case "hello":
			w.Count("auth-failure")
			ss.authDenied = true
			ss.c.taint("authentication refused")
			r := ss.fail(code, msg)
			ss.state = stDefunct
			return []reply{r}, "authentication failed"
		case "reset":
			w.Count("reset-refused")
			ss.resetFail = true
			ss.c.taint("reset refused")
			r := ss.fail(code, msg)
			if ss.tx != nil {
				ss.endTx("rolledback", "reset refused")
			}
			ss.state = stDefunct
			return []reply{r}, "reset refused"
		case "goodbye":
		default:
			if ss.ver <= 2 && forced.Phase == "late" && (ev == "begin" || (ev == "commit" || ev == "rollback") && ss.tx != nil) {
				ss.stream = &stream{txEnd: strings.ToUpper(ev), late: forced}
				ss.state = stTxStream
				return []reply{success(map[string]interface{}{"fields": []interface{}{}, "result_available_after": int64(0)})}, ""
			}
			w.Count("server-failure")
			w.injected(ss.c, ev, code, msg)
			if (ev == "commit" || ev == "rollback") && ss.tx != nil {
				r := ss.fail(code, msg)
				if ss.tx != nil {
					ss.endTx("rolledback", ev+" failed")
				}
				return []reply{r}, ""
			}
			if ev == "run" {
				ss.register(m, true)
			}
			return []reply{ss.fail(code, msg)}, ""
		}
	}

	switch ev {
	case "hello":
		if !ss.checkAuth(m) || ss.srv.authFail {
			w.Count("auth-failure")
			ss.authDenied = true
			ss.c.taint("authentication refused")
			r := ss.fail("Neo.ClientError.Security.Unauthorized", "The client is unauthorized due to authentication failure.")
			ss.state = stDefunct
			return []reply{r}, "authentication failed"
		}
		ss.authed = true
		ss.state = stReady
		md := map[string]interface{}{"server": fmt.Sprintf("Neo4j/%d.0.0", ss.ver)}
		if ss.ver >= 3 {
			md["connection_id"] = fmt.Sprintf("bolt-%d", ss.c.ID)
		}
		return []reply{success(md)}, ""
	case "goodbye":
		ss.goodbye = true
		ss.end("goodbye")
		ss.c.serverFIN()
		return nil, ""
	case "reset", "ack_failure":
		if ev == "ack_failure" && ss.state != stFailed {
			w.Violate("proto", "ACK_FAILURE in state "+ss.state)
		}
		if ss.tx != nil {
			if ev == "ack_failure" && ss.ver <= 2 {
				// the failed transaction is over either way
			}
			ss.endTx("rolledback", "reset")
		}
		ss.stream = nil
		ss.state = stReady
		return []reply{success(nil)}, ""
	case "begin":
		if ss.ver <= 2 {
			ss.stream = &stream{txEnd: "BEGIN"}
			ss.openTx("", "")
			ss.state = stTxStream
			return []reply{success(map[string]interface{}{"fields": []interface{}{}, "result_available_after": int64(0)})}, ""
		}
		db, mode := ss.extraDB(m.fields, 0)
		if r, bad := ss.dbFail(db); bad {
			return []reply{r}, ""
		}
		ss.openTx(db, mode)
		ss.state = stTx
		return []reply{success(nil)}, ""
	case "commit":
		if ss.ver <= 2 {
			if ss.tx == nil {
				return []reply{ss.fail("Neo.ClientError.Transaction.TransactionNotFound", "no transaction")}, ""
			}
			ss.commit()
			ss.stream = &stream{txEnd: "COMMIT"}
			ss.state = stStream
			return []reply{success(map[string]interface{}{"fields": []interface{}{}, "result_available_after": int64(0)})}, ""
		}
		ss.commit()
		ss.state = stReady
		return []reply{success(map[string]interface{}{"bookmark": fmt.Sprintf("bm:%d", w.CommitSeq)})}, ""
	case "rollback":
		if ss.tx != nil {
			ss.endTx("rolledback", "ROLLBACK")
		}
		if ss.ver <= 2 {
			ss.stream = &stream{txEnd: "ROLLBACK"}
			ss.state = stStream
			return []reply{success(map[string]interface{}{"fields": []interface{}{}, "result_available_after": int64(0)})}, ""
		}
		ss.state = stReady
		return []reply{success(nil)}, ""
	case "run":
		return ss.run(m), ""
	case "overview":
		return ss.overview(m, onReply), ""
	case "pull", "discard":
		return ss.pull(m, ev == "discard"), ""
	}
	return []reply{ss.fail("Neo.ClientError.Request.Invalid", "unexpected "+ev)}, ""
}

func (ss *session) openTx(db, mode string) {
	ss.w.txID++
	ss.tx = &Tx{ID: ss.w.txID, Sess: ss, DB: db, Mode: mode, State: "open", BeganAt: ss.w.S.Now()}
	ss.w.Txs = append(ss.w.Txs, ss.tx)
}

func (ss *session) commit() {
	w := ss.w
	t := ss.tx
	w.CommitSeq++
	for _, ex := range t.Execs {
		ex.Applied++
		w.Applied[ex.Tag]++
	}
	ss.endTx("committed", "COMMIT")
}

// extraDB reads db and mode from the metadata map at index i.
func (ss *session) extraDB(fields []interface{}, i int) (string, string) {
	if i >= len(fields) {
		return "", ""
	}
	m, _ := fields[i].(map[string]interface{})
	db, _ := m["db"].(string)
	mode, _ := m["mode"].(string)
	return db, mode
}

func (ss *session) dbFail(db string) (reply, bool) {
	if db == "" || db == "neo4j" || db == "system" {
		return reply{}, false
	}
	for _, d := range ss.srv.Cfg.DBs {
		if d == db {
			return reply{}, false
		}
	}
	ss.w.injected(ss.c, "db", "Neo.ClientError.Database.DatabaseNotFound", "Database does not exist. Database name: '"+db+"'.")
	return ss.fail("Neo.ClientError.Database.DatabaseNotFound", "Database does not exist. Database name: '"+db+"'."), true
}

func normDB(db string) string {
	if db == "" {
		return "neo4j"
	}
	return db
}

// register records that a statement reached execution, and checks it arrived
// exactly as issued.
func (ss *session) register(m *message, failed bool) *Exec {
	w := ss.w
	q, _ := m.fields[0].(string)
	mm := tagRe.FindStringSubmatch(q)
	if mm == nil {
		w.Violate("request-corrupt", "the server was asked to run a statement nobody issued: "+Show(q))
		return nil
	}
	tag, _ := strconv.Atoi(mm[1])
	is := w.Issued[tag]
	if is == nil {
		w.Violate("request-corrupt", "the server was asked to run a statement nobody issued: "+Show(q))
		return nil
	}
	if is.Text != q {
		w.Violate("request-corrupt", fmt.Sprintf("statement text differs from what was issued: got %s want %s", Show(q), Show(is.Text)))
	}
	if is.Spec != nil && is.Spec.Uint && Equal(m.fields[1], is.Params) {
		w.Violate("uint-wraps", fmt.Sprintf("a uint parameter of statement %d beyond the largest Bolt integer arrived as a negative number: %s", tag, Show(m.fields[1])))
		return nil
	}
	if !Equal(m.fields[1], is.Params) {
		w.Violate("request-corrupt", fmt.Sprintf("parameters of statement %d differ from what was passed: got %s want %s", tag, Show(m.fields[1]), Show(is.Params)))
	}
	db, mode := "", ""
	if ss.tx != nil {
		db, mode = ss.tx.DB, ss.tx.Mode
	} else if ss.ver >= 3 {
		db, mode = ss.extraDB(m.fields, 2)
	}
	ex := &Exec{Tag: tag, Mode: mode, Srv: ss.srv, Conn: ss.c, DB: normDB(db), Tx: ss.tx, At: w.S.Now(), Failed: failed}
	w.Execs = append(w.Execs, ex)
	w.ByTag[tag] = append(w.ByTag[tag], ex)
	ss.lastExec = ex
	if is.Bad {
		w.Violate("unencodable-executed", fmt.Sprintf("statement %d has a parameter that cannot be encoded, yet it was executed", tag))
	}
	if w.OnExec != nil {
		w.OnExec(ex, is)
	}
	return ex
}

func (ss *session) run(m *message) []reply {
	w := ss.w
	ex := ss.register(m, false)
	if ex == nil {
		return []reply{ss.fail("Neo.ClientError.Statement.SyntaxError", "unknown statement")}
	}
	is := w.Issued[ex.Tag]
	sp := is.Spec
	db, mode := "", ""
	if ss.tx != nil {
		db, mode = ss.tx.DB, ss.tx.Mode
		if ss.ver >= 3 {
			if xm, ok := m.fields[2].(map[string]interface{}); ok && len(xm) > 0 {
				w.Violate("proto", "RUN inside a transaction carries transaction metadata: "+Show(xm))
			}
		}
	} else if ss.ver >= 3 {
		db, mode = ss.extraDB(m.fields, 2)
	}
	if r, bad := ss.dbFail(db); bad {
		ex.Failed = true
		return []reply{r}
	}
	if sp.Write && (mode == "r" || ss.srv.Role == "follower" || ss.srv.Role == "read_replica") {
		ex.Failed = true
		code := "Neo.ClientError.Cluster.NotALeader"
		msg := "No write operations are allowed directly on this database."
		if mode == "r" {
			code = "Neo.ClientError.Statement.AccessMode"
			w.Violate("spurious", fmt.Sprintf("statement %d writes, but the client declared read access the caller never asked for", ex.Tag))
		}
		w.injected(ss.c, "run", code, msg)
		return []reply{ss.fail(code, msg)}
	}
	if sp.Fail == "run" {
		ex.Failed = true
		code, msg := FailText(sp.Tag)
		w.Count("server-failure")
		w.injected(ss.c, "run", code, msg)
		return []reply{ss.fail(code, msg)}
	}
	st := &stream{ex: ex, spec: sp}
	st.rows, st.final = Result(sp, ss.ver, ex.DB)
	ss.stream = st
	if ss.tx != nil {
		ss.tx.Execs = append(ss.tx.Execs, ex)
		ss.state = stTxStream
	} else {
		ss.state = stStream
	}
	return []reply{success(ss.runMeta(fields(sp)))}
}

func (ss *session) runMeta(f []interface{}) map[string]interface{} {
	md := map[string]interface{}{"fields": f}
	if ss.ver >= 3 {
		md["t_first"] = int64(1)
	} else {
		md["result_available_after"] = int64(1)
	}
	return md
}

func fields(sp *Spec) []interface{} {
	f := []interface{}{}
	for i := 0; i < sp.Cols; i++ {
		f = append(f, fmt.Sprintf("c%d", i))
	}
	return f
}

// FailText is the failure a statement with a Fail spec produces.
func FailText(tag int) (string, string) {
	kinds := []string{"ClientError.Statement", "ClientError.Schema", "TransientError.Transaction", "DatabaseError.General", "ClientError.Security", "ClientNotification.Statement"}
	texts := []string{"simulated failure %d of this statement", "%d: 100%% of `a` LIKE '%%d%%s' failed", "línea %d\n\tdos: ∞ \"x\"", "%d {code: [Neo.TransientError.X]; message: [none]}"}
	h := simrt.Mix(uint64(tag) + 77)
	return fmt.Sprintf("Neo.%s.Sim%d", kinds[h%uint64(len(kinds))], tag), fmt.Sprintf(texts[h>>8%uint64(len(texts))], tag)
}

func (f *Fault) failure() (string, string) {
	if f.Str != "" {
		return f.Str, "injected failure: " + f.Str
	}
	return fmt.Sprintf(simrt.Pick(simrt.NewRNG(uint64(f.Arg)), "Neo.TransientError.General.Inj%d", "Neo.DatabaseError.Transaction.Inj%d", "Neo.ClientError.General.Inj%d"), f.Arg), fmt.Sprintf("injected failure number %d", f.Arg)
}

// Result is what the server answers to a statement: rows and final metadata.
func Result(sp *Spec, ver int, db string) ([][]interface{}, map[string]interface{}) {
	r := simrt.NewRNG(simrt.Mix(sp.Seed ^ 0x5151))
	rows := make([][]interface{}, sp.Rows)
	for i := range rows {
		row := make([]interface{}, sp.Cols)
		for j := range row {
			if j == 0 {
				// every row says which statement it belongs to
				row[j] = int64(sp.Tag)*1000000 + int64(i)
			} else if sp.Rows > 50 {
				row[j] = fmt.Sprintf("s%d-%d", sp.Tag, i)
			} else if sp.RTmp && ver >= 2 && r.Intn(3) > 0 {
				row[j] = genTemporals(r)
			} else {
				row[j] = GenRowVal(r, sp.RSz)
			}
		}
		rows[i] = row
	}
	md := map[string]interface{}{"type": "r"}
	if sp.Write {
		md["type"] = "rw"
	}
	if ver >= 3 {
		md["t_last"] = int64(sp.Tag % 97)
		if ver >= 4 {
			md["db"] = db
		}
	} else {
		md["result_consumed_after"] = int64(sp.Tag % 97)
	}
	if sp.Stats >= 0 {
		st := Stats(sp)
		if st != nil {
			md["stats"] = st
		}
	}
	h := simrt.Mix(sp.Seed ^ 0x6d64)
	if h%8 == 0 {
		plan := map[string]interface{}{"operatorType": "ProduceResults", "identifiers": []interface{}{"n"}, "args": map[string]interface{}{"version": "CYPHER 4.0", "EstimatedRows": 1.5}, "children": []interface{}{}}
		if h>>8%2 == 0 {
			plan["dbHits"], plan["rows"] = int64(sp.Tag), int64(len(rows))
			md["profile"] = plan
		} else {
			md["plan"] = plan
		}
	}
	if h>>16%8 == 0 {
		md["notifications"] = []interface{}{map[string]interface{}{"code": "Neo.ClientNotification.Statement.CartesianProductWarning", "severity": "WARNING", "position": map[string]interface{}{"offset": int64(0), "line": int64(1), "column": int64(1)}}}
	}
	if h>>24%8 == 0 && ver >= 3 {
		md["bookmark"] = fmt.Sprintf("FB:kcwQ%d", sp.Tag)
	}
	return rows, md
}

var statKeys = []string{"nodes-created", "relationships-created", "nodes-deleted", "relationships-deleted", "properties-set", "labels-added"}

// Stats: bit i of sp.Stats includes statKeys[i]; bit 8 makes the values odd
// types; bit 9 makes stats itself something other than a map.
func Stats(sp *Spec) interface{} {
	if sp.Stats == 0 {
		return nil
	}
	if sp.Stats&512 != 0 {
		return []interface{}{int64(1)}
	}
	m := map[string]interface{}{}
	for i, k := range statKeys {
		if sp.Stats&(1<<uint(i)) != 0 {
			m[k] = int64(sp.Tag%50 + i)
			if sp.Stats&256 != 0 {
				switch (sp.Tag + i) % 3 {
				case 0:
					m[k] = "many"
				case 1:
					m[k] = nil
				case 2:
					m[k] = 1.5
				}
			}
		}
	}
	return m
}

func (ss *session) pull(m *message, discard bool) []reply {
	w := ss.w
	st := ss.stream
	inTx := ss.state == stTxStream
	if st == nil {
		return []reply{ss.fail("Neo.ClientError.Request.Invalid", "nothing to pull")}
	}
	n := int64(-1)
	if ss.ver >= 4 {
		if mm, ok := m.fields[0].(map[string]interface{}); ok {
			if x, ok := mm["n"].(int64); ok {
				n = x
			}
		}
	}
	if st.late != nil {
		code, msg := st.late.failure()
		ev := strings.ToLower(st.txEnd)
		w.Count("server-failure-late")
		w.injected(ss.c, ev, code, msg)
		r := ss.fail(code, msg)
		if ss.tx != nil {
			ss.endTx("rolledback", ev+" failed")
		}
		return []reply{r}
	}
	if st.txEnd != "" {
		ss.stream = nil
		if st.txEnd == "BEGIN" {
			ss.state = stTx
		} else {
			ss.state = stReady
		}
		return []reply{success(map[string]interface{}{"result_consumed_after": int64(0)})}
	}
	var out []reply
	pause := time.Duration(0)
	if st.spec != nil && st.spec.SlowMs > 0 {
		pause = time.Duration(st.spec.SlowMs) * time.Millisecond
	}
	for st.next < len(st.rows) && n != 0 {
		if st.spec != nil && st.spec.Fail == "pull" && st.next >= st.spec.FailAt {
			break
		}
		if !discard {
			r := reply{tag: 0x71, fields: []interface{}{st.rows[st.next]}}
			if pause > 0 && st.next%3 == 1 {
				r.pause = pause
			}
			out = append(out, r)
		}
		st.next++
		n--
	}
	if st.spec != nil && st.spec.Fail == "pull" && (st.next >= st.spec.FailAt || st.next >= len(st.rows)) {
		st.ex.Failed = true
		code, msg := FailText(st.spec.Tag)
		w.Count("server-failure")
		w.injected(ss.c, "pull", code, msg)
		return append(out, ss.fail(code, msg))
	}
	if st.next < len(st.rows) {
		return append(out, success(map[string]interface{}{"has_more": true}))
	}
	ss.stream = nil
	if inTx {
		ss.state = stTx
	} else {
		ss.state = stReady
		if st.ex != nil {
			st.ex.Applied++
			w.Applied[st.ex.Tag]++
		}
	}
	if st.ex != nil {
		st.ex.Done = true
	}
	fin := success(st.final)
	if st.over != nil {
		rep := st.over
		rep.SentAt = w.S.Now()
		fin.delivered = func() {
			rep.DeliveredAt = w.S.Now()
			rep.Delivered = true
			rep.Sure = !rep.conn.Closed && rep.conn.Taint == ""
		}
		w.Reports = append(w.Reports, rep)
	}
	return append(out, fin)
}

// checkFields verifies the shape of a request in the negotiated version.
func (ss *session) checkFields(m *message) {
	w := ss.w
	bad := func(f string, a ...interface{}) {
		w.Violate("proto", fmt.Sprintf("Bolt v%d %s: ", ss.ver, nameOf[m.tag])+fmt.Sprintf(f, a...))
	}
	want := func(n int) bool {
		if len(m.fields) != n {
			bad("%d fields instead of %d", len(m.fields), n)
			return false
		}
		return true
	}
	mapAt := func(i int, allowed ...string) map[string]interface{} {
		x, ok := m.fields[i].(map[string]interface{})
		if !ok {
			bad("field %d is %s instead of a map", i, Show(m.fields[i]))
			return nil
		}
		if len(allowed) > 0 {
			for _, k := range SortedKeys(x) {
				ok := false
				for _, a := range allowed {
					ok = ok || a == k
				}
				if !ok {
					bad("metadata key %q does not exist in this version", k)
				}
			}
		}
		if md, ok := x["mode"]; ok && len(allowed) > 0 {
			if md != "r" && md != "w" {
				bad("mode is %s", Show(md))
			}
		}
		if db, ok := x["db"]; ok && len(allowed) > 0 {
			if _, ok := db.(string); !ok {
				bad("db is %s", Show(db))
			}
		}
		return x
	}
	txKeys := []string{"bookmarks", "tx_timeout", "tx_metadata", "mode"}
	if ss.ver >= 4 {
		txKeys = append(txKeys, "db")
	}
	switch m.tag {
	case 0x01:
		if ss.ver <= 2 {
			if want(2) {
				if _, ok := m.fields[0].(string); !ok {
					bad("user agent is not a string")
				}
				mapAt(1)
			}
		} else if want(1) {
			if x := mapAt(0); x != nil {
				if ua, ok := x["user_agent"].(string); !ok || ua == "" {
					bad("user_agent is missing")
				}
			}
		}
	case 0x02, 0x0E, 0x0F:
		want(0)
	case 0x12, 0x13:
		want(0)
	case 0x10:
		n := 2
		if ss.ver >= 3 {
			n = 3
		}
		if want(n) {
			if _, ok := m.fields[0].(string); !ok {
				bad("statement is not a string")
				m.fields[0] = ""
			}
			mapAt(1)
			if n == 3 {
				mapAt(2, txKeys...)
			}
		} else {
			for len(m.fields) < 3 {
				m.fields = append(m.fields, map[string]interface{}{})
			}
			if _, ok := m.fields[0].(string); !ok {
				m.fields[0] = ""
			}
		}
	case 0x11:
		if want(1) {
			mapAt(0, txKeys...)
		}
	case 0x2F, 0x3F:
		if ss.ver <= 3 {
			want(0)
		} else if want(1) {
			if x := mapAt(0); x != nil {
				if n, ok := x["n"].(int64); !ok || n == 0 || n < -1 {
					bad("n is %s", Show(x["n"]))
				}
				if q, ok := x["qid"]; ok {
					if _, ok := q.(int64); !ok {
						bad("qid is %s", Show(q))
					}
				}
			}
		} else {
			m.fields = []interface{}{map[string]interface{}{}}
		}
	}
}

func (ss *session) checkAuth(m *message) bool {
	w := ss.w
	i := 0
	if ss.ver <= 2 {
		i = 1
	}
	if i >= len(m.fields) {
		return false
	}
	x, _ := m.fields[i].(map[string]interface{})
	cl := ss.c.Cl
	ok := true
	if x["scheme"] != "basic" {
		ok = false
		w.Violate("creds", fmt.Sprintf("authentication scheme is %s", Show(x["scheme"])))
	}
	if x["principal"] != cl.User {
		ok = false
		w.Violate("creds", fmt.Sprintf("authenticated as %s although the configured user is %q (connection to %s)", Show(x["principal"]), cl.User, ss.srv.Addr))
	}
	if x["credentials"] != cl.Pass {
		ok = false
		w.Violate("creds", fmt.Sprintf("password sent is %s although the configured one is %q (connection to %s)", Show(x["credentials"]), cl.Pass, ss.srv.Addr))
	}
	if !w.mayConnect(ss.srv, cl) {
		w.Violate("creds-leak", "credentials were sent to "+ss.srv.Addr+", which is neither configured nor an advertised member")
	}
	w.Auths++
	return ok
}

// ---- TLS on the server's side

type srvConn struct {
	ss     *session
	in     []byte
	sentAt time.Duration
}

func (sc *srvConn) Read(p []byte) (int, error) {
	s := sc.ss.w.S
	ok := s.Block("tls server read", func() bool { return len(sc.in) > 0 || sc.ss.dead || sc.ss.eof && len(sc.ss.kernel) == 0 }, -1)
	_ = ok
	if len(sc.in) == 0 {
		return 0, io.EOF
	}
	n := copy(p, sc.in)
	sc.in = sc.in[n:]
	return n, nil
}
func (sc *srvConn) Write(p []byte) (int, error) {
	if sc.ss.dead {
		return 0, errGone
	}
	sc.ss.c.sendDown(p, nil)
	return len(p), nil
}
func (sc *srvConn) Close() error                       { return nil }
func (sc *srvConn) LocalAddr() net.Addr                { return simAddr(sc.ss.srv.Addr) }
func (sc *srvConn) RemoteAddr() net.Addr               { return simAddr("client") }
func (sc *srvConn) SetDeadline(t time.Time) error      { return nil }
func (sc *srvConn) SetReadDeadline(t time.Time) error  { return nil }
func (sc *srvConn) SetWriteDeadline(t time.Time) error { return nil }

func (ss *session) startTLS() {
	w := ss.w
	ss.sc = &srvConn{ss: ss}
	w.S.Spawn("tls-server", func() {
		tc := tls.Server(ss.sc, w.tlsConfig(ss.srv.Cfg.TLS))
		// a stalled server does not even start the handshake
		w.S.Block("tls accept", func() bool { return len(ss.sc.in) > 0 || ss.dead || ss.eof }, -1)
		if ss.dead {
			return
		}
		for _, f := range w.trigger("tls", ss.srv, ss.c, ss) {
			w.applyConn(f, ss)
		}
		if ss.dead {
			return
		}
		w.S.Block("tls accept", func() bool { return !ss.blocked() || ss.dead }, -1)
		if err := tc.Handshake(); err != nil {
			w.TLSFailures++
			ss.c.taint("TLS handshake failed")
			w.note("tls-fail", ss.c, err.Error())
			ss.die("tls handshake failed", false)
			return
		}
		w.TLSHandshakes++
		ss.tls = tc
		buf := make([]byte, 4096)
		for {
			n, err := tc.Read(buf)
			if n > 0 && !ss.dead {
				ss.input(buf[:n], ss.sc.sentAt)
			}
			if err != nil {
				ss.tlsEOF = true
				ss.gotEOF()
				return
			}
		}
	})
}

// cuts tells whether the fault can strike in the middle of a reply.
func (f *Fault) cuts() bool {
	switch f.Act {
	case "reset", "fin", "stall", "hole", "crash", "srvstall", "srvhole":
		return true
	}
	return false
}

// remainder sends what was left of a reply when a fault struck, once the
// connection can carry it again.
func (ss *session) remainder(b []byte) {
	if ss.dead || len(b) == 0 {
		return
	}
	if ss.blocked() {
		ss.onResume(func() { ss.remainder(b) })
		return
	}
	ss.write(b, nil)
}
