package world

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"syscall"
	"time"

	"verif.local/sim/simrt"
)

// OSConnectTimeout is when an operating system gives up connecting by itself.
const OSConnectTimeout = 127 * time.Second

// Conn is the client's end of a simulated TCP connection.
type Conn struct {
	w      *World
	ID     int
	Srv    *Server
	Addr   string
	sess   *session
	rng    *simrt.RNG
	lat    time.Duration
	sndCap int

	Cl        *ClientCfg // the client whose connection it is
	Foreign   bool       // not a connection of the pool the run is about
	OpenedAt  time.Duration
	Closed    bool // by the client
	ClosedAt  time.Duration
	CloseSite string

	// client to server
	unread  int // bytes written and not yet consumed by the server
	c2sAt   time.Duration
	c2sHeld []func()
	// server to client
	rx      [][]byte
	rxEOF   bool
	rxEOFAt time.Duration
	rxRST   bool
	s2cAt   time.Duration
	s2cHeld []func()
	srvDone bool // server sent FIN or RST
	hole    bool // packets of this connection disappear

	rdl, wdl time.Time

	Taint   string // first transport fault that hit this connection
	TaintAt time.Duration
	BadData bool // the server sent something a correct server would not

	rawFirst []byte
	recLeft  int
	recHdr   []byte

	BytesUp, BytesDown int
	LastTask           *simrt.Task
	LastOp             *OpRun
	Owner              interface{}
	UnaskedAt          time.Duration // bytes nobody asked for had arrived (0: none, -1: under way)
	Progress           time.Duration // last time bytes moved in either direction
	Failures           []Failure
	failuresRead       int // how many of them the client has answered with RESET
	chunks             []chunkSet
	sentSegs           int
	upSeq              int
	keepWire           bool
	deep               bool // something nested too deeply to be looked at was sent
	wire               []byte
}

func (c *Conn) taint(why string) {
	if c.Taint == "" {
		c.Taint = why
		c.TaintAt = c.w.S.Now()
	}
}

func opErr(op string, c *Conn, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Addr: simAddr(c.Addr), Err: err}
}

// timedOut is the error of an expired deadline. Where tasks are stalled on
// purpose, a deadline may pass without the peer being at fault.
func (c *Conn) timedOut(op string) error {
	if c.w.Sc.NoTiming {
		c.taint("a stalled task missed its deadline")
	}
	return opErr(op, c, timeoutErr{})
}

type simAddr string

func (a simAddr) Network() string { return "tcp" }
func (a simAddr) String() string  { return string(a) }

// Dial implements simrt.Network.
func (w *World) Dial(network, addr string, deadline time.Duration, cancelled func() error) (net.Conn, error) {
	s := w.S
	w.Dials++
	w.note("dial", nil, "addr="+addr)
	if w.OnDial != nil {
		w.OnDial(addr)
	}
	host := addr
	if i := strings.LastIndexByte(addr, ':'); i >= 0 {
		host = addr[:i]
	} else {
		return nil, &net.OpError{Op: "dial", Net: network, Err: &net.AddrError{Err: "missing port in address", Addr: addr}}
	}
	srv := w.lookup(addr)
	now := s.Now()
	if srv == nil {
		w.DialsUnknown++
		s.Block("dns", func() bool { return false }, now+time.Millisecond)
		return nil, &net.OpError{Op: "dial", Net: network, Err: &net.DNSError{Err: "no such host", Name: host, IsNotFound: true}}
	}
	c := &Conn{w: w, ID: len(w.Conns) + 1, Srv: srv, Addr: addr, rng: simrt.NewRNG(simrt.Mix(w.Sc.Seed ^ uint64(len(w.Conns)+1)*0x9E37))}
	c.lat = time.Duration(c.rng.Range(w.Sc.Net.LatMinUs, w.Sc.Net.LatMaxUs)) * time.Microsecond
	c.sndCap = w.Sc.Net.SndBuf
	if c.sndCap <= 0 {
		c.sndCap = 1 << 20
	}
	w.Conns = append(w.Conns, c)
	w.touch(c)
	c.Cl = &w.Sc.Client
	if c.LastOp != nil {
		c.Cl = w.Sc.ClientOf(c.LastOp.Op)
		c.Foreign = c.LastOp.Op.Op == "foreign"
	}
	var outcome error
	decided := false
	var attempt func()
	attempt = func() {
		if decided {
			return
		}
		w.trigger("dial", srv, c, nil)
		switch {
		case srv.holed():
			srv.onHeal = append(srv.onHeal, func() { s.After(c.lat, attempt) })
			c.taint("dial into a black hole")
		case srv.refusing():
			decided, outcome = true, opErr("dial", c, os.NewSyscallError("connect", syscall.ECONNREFUSED))
			c.taint("refused")
		default:
			decided = true
		}
	}
	s.After(c.lat, attempt)
	os := now + OSConnectTimeout
	dl := os
	if deadline >= 0 && deadline < dl {
		dl = deadline
	}
	var cerr error
	ok := s.Block("connect", func() bool {
		if cancelled != nil {
			if cerr = cancelled(); cerr != nil {
				return true
			}
		}
		return decided
	}, dl)
	if cerr != nil {
		decided = true
		c.Closed = true
		return nil, opErr("dial", c, cerr)
	}
	if !ok {
		decided = true
		c.Closed = true
		if dl == deadline {
			return nil, c.timedOut("dial")
		}
		return nil, opErr("dial", c, syscall.ETIMEDOUT)
	}
	if outcome != nil {
		c.Closed = true
		return nil, outcome
	}
	if w.OnDial != nil { // things may have changed meanwhile
		w.OnDial(addr)
	}
	s.Block("connect", func() bool { return false }, s.Now()+c.lat)
	c.OpenedAt = s.Now()
	w.Established++
	if !c.Foreign {
		w.open[c] = true
	}
	if n := len(w.open); n > w.MaxOpen {
		w.MaxOpen = n
	}
	srv.accept(c)
	if w.OnOpen != nil {
		w.OnOpen(c)
	}
	return c, nil
}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }
func (timeoutErr) Unwrap() error   { return os.ErrDeadlineExceeded }

func (c *Conn) expired(t time.Time) bool { return !t.IsZero() && !time.Now().Before(t) }

// ---- net.Conn for the client

func (c *Conn) Read(p []byte) (int, error) {
	if simrt.RaceBuild {
		defer simrt.HOut(simrt.HIn())
	}
	s := c.w.S
	s.Point()
	c.w.touch(c)
	if c.Closed {
		return 0, opErr("read", c, net.ErrClosed)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if c.expired(c.rdl) {
		return 0, c.timedOut("read")
	}
	if len(c.rx) == 0 && !c.rxEOF && !c.rxRST {
		s.Block("net read", func() bool {
			return len(c.rx) > 0 || c.rxEOF || c.rxRST || c.Closed || c.expired(c.rdl)
		}, -1)
	}
	if c.Closed {
		return 0, opErr("read", c, net.ErrClosed)
	}
	if len(c.rx) > 0 {
		n := 0
		for n < len(p) && len(c.rx) > 0 {
			k := copy(p[n:], c.rx[0])
			n += k
			if k == len(c.rx[0]) {
				c.rx = c.rx[1:]
				if c.w.Sc.Net.NoCoal {
					break
				}
			} else {
				c.rx[0] = c.rx[0][k:]
			}
		}
		s.Progress()
		return n, nil
	}
	if c.rxRST {
		return 0, opErr("read", c, os.NewSyscallError("read", syscall.ECONNRESET))
	}
	if c.rxEOF {
		return 0, io.EOF
	}
	return 0, c.timedOut("read")
}

func (c *Conn) Write(p []byte) (int, error) {
	if simrt.RaceBuild {
		defer simrt.HOut(simrt.HIn())
	}
	s := c.w.S
	s.Point()
	c.w.touch(c)
	n := 0
	t0, blocked := s.Now(), false
	if ss := c.sess; ss != nil && !ss.dead && !c.Closed && !c.rxRST && len(p) > 0 {
		ev := "write"
		if i := bytes.Index(p, []byte{0xB0, 0x02}); i >= 0 && len(p) <= 6 {
			ev = "wgoodbye"
		}
		for _, f := range c.w.trigger(ev, c.Srv, c, ss) {
			if f.Act != "sever" {
				c.w.applyConn(f, ss)
			} else if n == 0 { // the link is lost while the client writes
				n = int(uint64(f.Arg) % uint64(len(p)))
				c.sendUp(p[:n])
				c.taint("link lost during a write")
				ss.end("link lost")
				c.rxRST, c.srvDone = true, true
				if !c.rxEOF {
					c.rxEOFAt = s.Now()
				}
			}
		}
	}
	for {
		if c.Closed {
			return n, opErr("write", c, net.ErrClosed)
		}
		if c.expired(c.wdl) {
			if blocked && s.Now()-t0 >= 50*time.Millisecond {
				// one write, however long it is, has one deadline
				c.taint("the link was too slow for the write")
			}
			return n, c.timedOut("write")
		}
		if c.rxRST {
			return n, opErr("write", c, os.NewSyscallError("write", syscall.EPIPE))
		}
		if n == len(p) {
			return n, nil
		}
		space := c.sndCap - c.unread
		if space <= 0 {
			s.Probe("write-blocked")
			blocked = true
			s.Block("net write", func() bool {
				return c.sndCap-c.unread > 0 || c.rxRST || c.Closed || c.expired(c.wdl)
			}, -1)
			continue
		}
		k := len(p) - n
		if k > space {
			k = space
		}
		s.Progress()
		c.sendUp(p[n : n+k])
		n += k
		if n == len(p) {
			return n, nil
		}
	}
}

func (c *Conn) Close() error {
	if simrt.RaceBuild {
		defer simrt.HOut(simrt.HIn())
	}
	s := c.w.S
	c.w.touch(c)
	if c.Closed {
		return opErr("close", c, net.ErrClosed)
	}
	c.Closed = true
	c.ClosedAt = s.Now()
	delete(c.w.open, c)
	c.w.note("close", c, unreadNote(c))
	if c.w.OnClose != nil {
		c.w.OnClose(c)
	}
	rst := len(c.rx) > 0
	c.rx = nil
	c.deliverUp(c.lat, func() {
		if rst {
			c.sess.peerGone("reset by client")
		} else {
			c.sess.gotEOF()
		}
	})
	s.Point()
	return nil
}

func (c *Conn) LocalAddr() net.Addr {
	if simrt.RaceBuild {
		defer simrt.HOut(simrt.HIn())
	}
	return simAddr(fmt.Sprintf("client:%d", 40000+c.ID))
}
func (c *Conn) RemoteAddr() net.Addr { return simAddr(c.Addr) }

func (c *Conn) SetDeadline(t time.Time) error {
	if err := c.SetReadDeadline(t); err != nil {
		return err
	}
	return c.SetWriteDeadline(t)
}
func (c *Conn) SetReadDeadline(t time.Time) error {
	if simrt.RaceBuild {
		defer simrt.HOut(simrt.HIn())
	}
	if c.Closed {
		return opErr("set", c, net.ErrClosed)
	}
	c.rdl = t
	c.armDeadline(t)
	return nil
}
func (c *Conn) SetWriteDeadline(t time.Time) error {
	if simrt.RaceBuild {
		defer simrt.HOut(simrt.HIn())
	}
	if c.Closed {
		return opErr("set", c, net.ErrClosed)
	}
	c.wdl = t
	c.armDeadline(t)
	return nil
}
func (c *Conn) armDeadline(t time.Time) {
	if t.IsZero() {
		return
	}
	d := time.Until(t)
	if d > 0 && d < 1000*time.Hour {
		c.w.S.After(d, func() {})
	}
}

// ---- moving bytes

// split cuts b into network segments.
func (c *Conn) split(b []byte) [][]byte {
	max := 0
	switch c.w.Sc.Net.Seg {
	case "mss":
		max = 1448
	case "bytes":
		if len(b) <= 400 {
			max = 1
		} else {
			max = len(b)/200 + 1
		}
	case "rand":
		var r [][]byte
		for len(b) > 0 {
			n := 1 + c.rng.Intn(len(b))
			if c.rng.Intn(3) == 0 && n > 4 {
				n = 1 + c.rng.Intn(4)
			}
			if len(r) > 60 {
				n = len(b)
			}
			r = append(r, b[:n])
			b = b[n:]
		}
		return r
	default:
		return [][]byte{b}
	}
	var r [][]byte
	for len(b) > max {
		r = append(r, b[:max])
		b = b[max:]
	}
	return append(r, b)
}

func (c *Conn) sendUp(b []byte) {
	c.BytesUp += len(b)
	if t := c.w.S.Running(); t != nil {
		if op, _ := t.Data.(*OpRun); op != nil && !op.Returned {
			op.Wrote += len(b)
		}
	}
	c.checkClear(b)
	c.unread += len(b)
	cp := append([]byte(nil), b...)
	sentAt := c.w.S.Now()
	extra := time.Duration(0)
	if g := c.w.Sc.Net.ReqGapMs; g > 0 && c.rng.Intn(100) < c.w.Sc.Net.PGap {
		extra = time.Duration(c.rng.Intn(g*1000)) * time.Microsecond
	}
	for _, seg := range c.split(cp) {
		seg := seg
		c.sentSegs++
		c.deliverUp(c.lat+extra, func() { c.sess.arrive(seg, sentAt) })
	}
}

func (c *Conn) deliverUp(d time.Duration, fn func()) {
	at := c.w.S.Now() + d
	if at < c.c2sAt {
		at = c.c2sAt
	}
	c.c2sAt = at
	c.w.S.At(at, func() {
		if c.hole || c.Srv.holed() {
			c.c2sHeld = append(c.c2sHeld, fn)
			return
		}
		if len(c.c2sHeld) > 0 { // keep order behind held packets
			c.c2sHeld = append(c.c2sHeld, fn)
			return
		}
		fn()
	})
}

// sendDown is the server writing to the client.
func (c *Conn) sendDown(b []byte, done func()) {
	if c.srvDone {
		return
	}
	if len(b) == 0 && done == nil {
		return
	}
	c.BytesDown += len(b)
	cp := append([]byte(nil), b...)
	segs := c.split(cp)
	for i, seg := range segs {
		seg := seg
		extra := time.Duration(0)
		if g := c.w.Sc.Net.GapMs; g > 0 && c.rng.Intn(100) < c.w.Sc.Net.PGap {
			extra = time.Duration(c.rng.Intn(g*1000)) * time.Microsecond
			c.w.Count("net-gap")
		}
		last := i == len(segs)-1
		c.deliverDown(c.lat, extra, func() {
			if !c.Closed && !c.rxRST {
				if len(seg) > 0 {
					c.rx = append(c.rx, seg)
				}
				c.Progress = c.w.S.Now()
			}
			if last && done != nil {
				done()
			}
		})
	}
}

func (c *Conn) deliverDown(d, extra time.Duration, fn func()) {
	at := c.w.S.Now() + d
	if at < c.s2cAt {
		at = c.s2cAt
	}
	at += extra
	c.s2cAt = at
	c.w.S.At(at, func() {
		if c.hole || c.Srv.holed() || len(c.s2cHeld) > 0 {
			c.s2cHeld = append(c.s2cHeld, fn)
			return
		}
		fn()
	})
}

// heal lets held packets through, in order.
func (c *Conn) heal() {
	up, down := c.c2sHeld, c.s2cHeld
	c.c2sHeld, c.s2cHeld = nil, nil
	for _, f := range down {
		f()
	}
	for _, f := range up {
		f()
	}
}

// serverFIN: orderly close by the server.
func (c *Conn) serverFIN() {
	if c.srvDone {
		return
	}
	c.deliverDown(c.lat, 0, func() {
		if !c.rxEOF {
			c.rxEOF = true
			c.rxEOFAt = c.w.S.Now()
		}
	})
	c.srvDone = true
}

// serverRST: abortive close by the server; data already received stays readable
// unless drop is set.
func (c *Conn) serverRST(drop bool) {
	if c.rxRST {
		return
	}
	c.deliverDown(c.lat, 0, func() {
		if drop {
			c.rx = nil
		}
		c.rxRST = true
		if !c.rxEOF {
			c.rxEOFAt = c.w.S.Now()
		}
	})
	c.srvDone = true
}

// PeerClosedBefore reports whether the client could have seen, before t, that
// the server closed this connection.
func (c *Conn) PeerClosedBefore(t time.Duration) bool {
	return (c.rxEOF || c.rxRST) && c.rxEOFAt < t
}

// checkClear verifies, where TLS is configured, that only TLS records are sent.
func (c *Conn) checkClear(b []byte) {
	if !c.Cl.TLS {
		return
	}
	for _, x := range b {
		if c.recLeft > 0 {
			c.recLeft--
			continue
		}
		c.recHdr = append(c.recHdr, x)
		if len(c.recHdr) == 1 && (x < 20 || x > 23) || len(c.recHdr) == 2 && x != 3 {
			c.w.Violate("cleartext", fmt.Sprintf("TLS is configured, but bytes that are not TLS were sent to %s (first bytes %x)", c.Addr, clip(b, 24)))
			c.recLeft = 1 << 30
			return
		}
		if len(c.recHdr) == 5 {
			c.recLeft = int(c.recHdr[3])<<8 | int(c.recHdr[4])
			c.recHdr = nil
		}
	}
}

func clip(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

var errGone = errors.New("connection gone")

func unreadNote(c *Conn) string {
	n := 0
	for _, b := range c.rx {
		n += len(b)
	}
	if n == 0 {
		return ""
	}
	return fmt.Sprintf("%d bytes unread % x", n, c.rx[0])
}

// FailureRead: the client had read the failure, for it answered with RESET.
func (c *Conn) FailureRead(f Failure) bool {
	for _, x := range c.Failures[:c.failuresRead] {
		if x.At == f.At && x.Code == f.Code && x.Msg == f.Msg {
			return true
		}
	}
	return false
}
