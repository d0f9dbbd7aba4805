package gen

import (
	"fmt"

	"verif.local/sim/simrt"
	"verif.local/sim/world"
)

// ---- one or more plain connections

func (g *G) fDriver() {
	for n := 1 + g.Intn(3); n > 0; n-- {
		g.driverTask(fmt.Sprintf("d%d", n), 2+g.Intn(6))
	}
}

func (g *G) fDriverFaults() {
	g.fDriver()
	for n := 1 + g.Intn(2); n > 0; n-- {
		switch g.Intn(5) {
		case 0:
			g.serverFault(0, 300)
		case 1:
			g.failFault("run", "pull", "begin", "commit", "rollback", "reset", "hello")
		default:
			g.connFault()
		}
	}
	g.smallBuf()
}

// several tasks run statements on one connection
func (g *G) fShared() {
	g.noTx = true
	g.sc.Client.TLS = false
	c := g.newSlot()
	if g.pct(40) {
		g.pool(1 + g.Intn(2))
	}
	g.schedule(true)
	a := g.task("owner", 0, g.open(c))
	n := 2 + g.Intn(3)
	for i := 0; i < n; i++ {
		t := a
		if i > 0 {
			t = g.task(fmt.Sprintf("s%d", i), g.Intn(3), &world.Op{Op: "wait", C: c})
		}
		for k := 1 + g.Intn(4); k > 0; k-- {
			t.Ops = append(t.Ops, g.q(c))
		}
	}
	a.Ops = append(a.Ops, &world.Op{Op: "join"})
	if g.sc.Client.Kind == "pool" {
		a.Ops = append(a.Ops, &world.Op{Op: "reclaim", C: c})
	} else {
		a.Ops = append(a.Ops, &world.Op{Op: "close", C: c})
	}
	if g.pct(15) && g.prop != "C16" {
		g.stalls()
	}
}

// several tasks use one connection and one of them closes it at any
// moment; with transactions where only the races are judged
func (g *G) fSharedClose() {
	g.sc.Client.TLS = false
	g.dbp = 0
	c := g.newSlot()
	pool := g.pct(40)
	if pool {
		g.pool(1 + g.Intn(2))
	}
	g.schedule(true)
	a := g.task("owner", 0, g.open(c))
	span := 2 + g.Intn(60)
	for i := 1 + g.Intn(3); i > 0; i-- {
		t := g.task(fmt.Sprintf("s%d", i), 0, &world.Op{Op: "wait", C: c})
		for k := 1 + g.Intn(5); k > 0; k-- {
			if g.pct(30) {
				t.Ops = append(t.Ops, &world.Op{Op: "sleep", Ms: int64(g.Intn(span))})
			}
			switch {
			case g.prop != "C16":
				t.Ops = append(t.Ops, g.q(c))
			case i == 1 && g.pct(40): // one task at a time uses transactions
				x := g.newTx()
				t.Ops = append(t.Ops, &world.Op{Op: "begin", C: c, T: x})
				for k := g.Intn(3); k > 0; k-- {
					t.Ops = append(t.Ops, &world.Op{Op: "tq", C: c, T: x, Spec: g.clean()})
				}
				t.Ops = append(t.Ops, &world.Op{Op: simrt.Pick(g.RNG, "commit", "rollback"), C: c, T: x})
				if g.pct(50) {
					t.Ops = append(t.Ops, &world.Op{Op: "isclosed", C: c, T: x})
				}
			case g.pct(10):
				t.Ops = append(t.Ops, &world.Op{Op: "validate", C: c})
			case g.pct(10):
				t.Ops = append(t.Ops, &world.Op{Op: "settimeout", C: c, Ms: int64(500 + g.Intn(9000))})
			default:
				t.Ops = append(t.Ops, g.q(c))
			}
		}
	}
	for n := 1 + g.Intn(2); n > 0; n-- {
		g.task(fmt.Sprintf("end%d", n), 0, &world.Op{Op: "wait", C: c}, &world.Op{Op: "sleep", Ms: int64(g.Intn(span))}, &world.Op{Op: "close", C: c})
	}
	if pool {
		a.Ops = append(a.Ops, &world.Op{Op: "join"}, &world.Op{Op: "reclaim", C: c})
		a.Ops = append(a.Ops, g.borrow(2)...)
	}
}

// a call times out; what comes late must not be taken for a later answer
func (g *G) fTimeoutReuse() {
	g.fDriver()
	f := g.connFault("run", "pull", "begin", "commit", "rollback", "reset")
	f.Act = simrt.Pick(g.RNG, "stall", "hole", "noread")
	f.DurMs = int64(g.timeout()) + int64(g.Intn(2*g.timeout()))
	if g.pct(40) {
		f.Act, f.Phase = "delay", ""
	}
}

func (g *G) fSlow() {
	g.fDriver()
	for _, t := range g.sc.Tasks {
		for _, o := range t.Ops {
			if o.Spec != nil && g.pct(40) {
				o.Spec.SlowMs = 1 + g.Intn(g.timeout()/5)
			}
		}
	}
}

func (g *G) fBig() {
	g.big = 2
	g.noTx = g.pct(50)
	if g.pct(70) {
		g.sc.Client.Chunk = simrt.Pick(g.RNG, 1, 2, 3, 15, 127, 128, 255, 256, 1000, 1448, 8192, 32767, 32768, 65534, 65535)
	}
	g.sc.Net.SndBuf = simrt.Pick(g.RNG, 0, 0, 4096, 65536)
	for n := 1 + g.Intn(2); n > 0; n-- {
		c := g.newSlot()
		t := g.task(fmt.Sprintf("d%d", n), 0, g.open(c))
		for k := 2 + g.Intn(4); k > 0; k-- {
			if g.pct(30) {
				t.Ops = append(t.Ops, &world.Op{Op: "chunk", C: c, N: simrt.Pick(g.RNG, 1, 2, 7, 50, 128, 255, 256, 257, 1000, 16384, 65535, 1+g.Intn(65535))})
			}
			t.Ops = append(t.Ops, g.work(c, 1)...)
		}
	}
	g.lightChunks()
}

// lightChunks keeps one-byte chunks away from huge payloads.
func (g *G) lightChunks() {
	small := g.sc.Client.Chunk > 0 && g.sc.Client.Chunk < 50
	for _, t := range g.sc.Tasks {
		for _, o := range t.Ops {
			if o.Op == "chunk" {
				small = o.N < 50
			}
			if o.Spec != nil && small && o.Spec.Sz == 2 {
				o.Spec.Sz = 1
				o.Spec.Txt %= 600
			}
		}
	}
}

func (g *G) fPoolBig() {
	g.pool(1 + g.Intn(3))
	g.big = 2
	g.sc.Client.Chunk = simrt.Pick(g.RNG, 0, 100, 1000, 8192, 65535)
	g.poolTasks(2, 2, 3)
	g.lightChunks()
}

func (g *G) fBad() {
	g.big = simrt.Pick(g.RNG, 0, 1, 2)
	if g.pct(50) {
		g.sc.Client.Chunk = simrt.Pick(g.RNG, 16, 100, 255, 1000)
	}
	g.fDriver()
	for _, t := range g.sc.Tasks {
		for _, o := range t.Ops {
			if o.Spec != nil && g.pct(35) {
				o.Spec.Bad = true
			}
		}
	}
	g.lightChunks()
}

// fUint ends every task with a parameter that does not fit a Bolt integer.
func (g *G) fUint() {
	g.noBad = true
	g.fDriver()
	last := g.sc.Tasks[len(g.sc.Tasks)-1]
	for _, o := range last.Ops {
		if o.Spec != nil && g.pct(30) {
			o.Spec.Bad, o.Spec.Uint = true, true
		}
	}
}

func (g *G) netStyle() {
	n := &g.sc.Net
	n.Seg = simrt.Pick(g.RNG, "bytes", "bytes", "rand", "rand", "mss")
	n.NoCoal = g.pct(70)
	g.sc.Servers[0].Chunk = simrt.Pick(g.RNG, "small", "rand", "rand", "page", "")
	if g.pct(40) {
		n.SndBuf = simrt.Pick(g.RNG, 64, 1000, 5000)
	}
}

func (g *G) fNet() {
	g.netStyle()
	if g.pct(30) {
		g.big = 2
	}
	g.fDriver()
	g.lightChunks()
}

func (g *G) fNetSlow() {
	g.netStyle()
	if g.pct(30) {
		g.sc.Client.TimeoutMs = 0
	}
	g.sc.Net.GapMs = g.timeout() / 4
	g.sc.Net.ReqGapMs = g.timeout() / 40
	g.sc.Horizon = 200000000
	g.sc.Net.PGap = simrt.Pick(g.RNG, 2, 10, 30)
	g.fDriver()
	if g.pct(50) {
		f := &world.Fault{On: simrt.Pick(g.RNG, "hs", "hello", "run", "pull", "begin", "commit", "rollback", "reset"), N: 1 + g.Intn(3), Srv: -1, Act: "delay", DurMs: int64(g.timeout() / 5)}
		g.sc.Faults = append(g.sc.Faults, f)
	}
}

func (g *G) fNetPool() {
	g.pool(1 + g.Intn(3))
	g.netStyle()
	g.poolTasks(2+g.Intn(2), 2, 3)
}

func (g *G) fNetTLS() {
	g.tlsGood()
	g.netStyle()
	g.fDriver()
}

// ---- transactions

func (g *G) txOnly(c, n int) []*world.Op {
	var ops []*world.Op
	for ; n > 0; n-- {
		ops = append(ops, g.txBlock(c)...)
		if g.pct(30) {
			ops = append(ops, g.q(c))
		}
	}
	return ops
}

func (g *G) fTx() {
	for n := 1 + g.Intn(2); n > 0; n-- {
		c := g.newSlot()
		t := g.task(fmt.Sprintf("x%d", n), 0, g.open(c))
		t.Ops = append(t.Ops, g.txOnly(c, 1+g.Intn(4))...)
		switch g.Intn(4) {
		case 0: // close with a transaction open
			l, _ := g.leaveTx(c)
			t.Ops = append(t.Ops, l...)
			t.Ops = append(t.Ops, &world.Op{Op: "close", C: c})
		case 1:
			l, x := g.leaveTx(c)
			t.Ops = append(t.Ops, l...)
			t.Ops = append(t.Ops, &world.Op{Op: "idle", C: c}, &world.Op{Op: "isclosed", C: c, T: x}, g.q(c))
		}
	}
}

func (g *G) fTxFaults() {
	g.fTx()
	for n := 1 + g.Intn(2); n > 0; n-- {
		switch g.Intn(6) {
		case 0:
			g.serverFault(0, 200)
		case 1, 2:
			g.failFault("begin", "commit", "rollback", "run", "pull", "reset")
		default:
			g.connFault("begin", "run", "pull", "commit", "commit", "rollback", "reset")
		}
	}
}

func (g *G) fTxPool() {
	g.pool(1 + g.Intn(2))
	g.probe = g.pct(50)
	for i := 0; i < 2+g.Intn(2); i++ {
		t := g.task(fmt.Sprintf("b%d", i), g.Intn(20))
		for k := 1 + g.Intn(3); k > 0; k-- {
			c := g.newSlot()
			t.Ops = append(t.Ops, g.open(c))
			x := 0
			if g.pct(50) {
				var l []*world.Op
				l, x = g.leaveTx(c)
				t.Ops = append(t.Ops, l...)
			} else {
				t.Ops = append(t.Ops, g.txOnly(c, 1)...)
			}
			t.Ops = append(t.Ops, g.give(c)...)
			if x > 0 && g.pct(70) { // the handle outlives the borrow
				t.Ops = append(t.Ops, &world.Op{Op: simrt.Pick(g.RNG, "commit", "rollback", "isclosed"), C: c, T: x})
				if g.pct(60) {
					t.Ops = append(t.Ops, &world.Op{Op: "tq", C: c, T: x, Spec: g.clean()})
				}
			}
		}
	}
	if g.pct(30) {
		g.connFault("begin", "run", "commit", "rollback", "pull")
	}
}

// one transaction used from two tasks
func (g *G) fTxTwo() {
	c := g.newSlot()
	g.noBad, g.noFail = true, true
	t := g.newTx()
	a := g.task("a", 0, g.open(c), &world.Op{Op: "begin", C: c, T: t})
	for k := 1 + g.Intn(5); k > 0; k-- {
		a.Ops = append(a.Ops, &world.Op{Op: "tq", C: c, T: t, Spec: g.clean()})
	}
	a.Ops = append(a.Ops, &world.Op{Op: simrt.Pick(g.RNG, "commit", "rollback"), C: c, T: t})
	a.Ops = append(a.Ops, g.work(c, 2)...)
	g.driverTask("b", 3)
}

// several tasks use one transaction, and some end it at any moment
func (g *G) fTxShared() {
	g.noBad, g.noFail = true, true
	g.sc.Client.TLS = false
	c := g.newSlot()
	if g.pct(30) {
		g.pool(1 + g.Intn(2))
	}
	g.schedule(true)
	a := g.task("owner", 0, g.open(c))
	for n := 1 + g.Intn(2); n > 0; n-- {
		x := g.newTx()
		span := 2 + g.Intn(60)
		a.Ops = append(a.Ops, &world.Op{Op: "begin", C: c, T: x})
		if g.pct(50) {
			a.Ops = append(a.Ops, &world.Op{Op: "tq", C: c, T: x, Spec: g.clean()})
		}
		for i := 1 + g.Intn(3); i > 0; i-- {
			t := g.task(fmt.Sprintf("s%d-%d", n, i), 0, &world.Op{Op: "waittx", C: c, T: x})
			for k := 1 + g.Intn(4); k > 0; k-- {
				if g.pct(30) {
					t.Ops = append(t.Ops, &world.Op{Op: "sleep", Ms: int64(g.Intn(span))})
				}
				if g.pct(20) {
					t.Ops = append(t.Ops, &world.Op{Op: "isclosed", C: c, T: x})
				}
				t.Ops = append(t.Ops, &world.Op{Op: "tq", C: c, T: x, Spec: g.clean()})
			}
		}
		for i := g.Intn(3); i > 0; i-- {
			g.task(fmt.Sprintf("e%d-%d", n, i), 0, &world.Op{Op: "waittx", C: c, T: x}, &world.Op{Op: "sleep", Ms: int64(g.Intn(span))}, &world.Op{Op: simrt.Pick(g.RNG, "commit", "commit", "rollback"), C: c, T: x})
		}
		a.Ops = append(a.Ops, &world.Op{Op: "sleep", Ms: int64(g.Intn(span))}, &world.Op{Op: simrt.Pick(g.RNG, "commit", "commit", "rollback"), C: c, T: x}, &world.Op{Op: "isclosed", C: c, T: x})
	}
	a.Ops = append(a.Ops, g.work(c, 2)...)
	a.Ops = append(a.Ops, &world.Op{Op: "join"})
	if g.sc.Client.Kind == "pool" {
		a.Ops = append(a.Ops, &world.Op{Op: "reclaim", C: c})
	} else {
		a.Ops = append(a.Ops, &world.Op{Op: "close", C: c})
	}
}

func (g *G) fEnded() {
	g.dbp = 0.05
	for n := 1 + g.Intn(2); n > 0; n-- {
		c := g.newSlot()
		t := g.task(fmt.Sprintf("x%d", n), 0, g.open(c))
		var old []int
		for k := 2 + g.Intn(4); k > 0; k-- {
			l, x := g.leaveTx(c)
			t.Ops = append(t.Ops, l...)
			switch g.Intn(7) {
			case 0, 1:
				t.Ops = append(t.Ops, &world.Op{Op: "commit", C: c, T: x})
			case 2:
				t.Ops = append(t.Ops, &world.Op{Op: "rollback", C: c, T: x})
			case 3, 4: // a failing statement ends it
				sp := g.clean()
				sp.Fail, sp.FailAt = simrt.Pick(g.RNG, "run", "pull"), g.Intn(sp.Rows+1)
				t.Ops = append(t.Ops, &world.Op{Op: "tq", C: c, T: x, Spec: sp})
			case 5:
				t.Ops = append(t.Ops, &world.Op{Op: "idle", C: c})
			case 6:
				if k == 1 {
					t.Ops = append(t.Ops, &world.Op{Op: "close", C: c})
				} else {
					t.Ops = append(t.Ops, &world.Op{Op: "commit", C: c, T: x})
				}
			}
			old = append(old, x)
			if g.pct(50) { // an old handle while another transaction is open
				l, y := g.leaveTx(c)
				t.Ops = append(t.Ops, l...)
				t.Ops = append(t.Ops, g.useEnded(c, old)...)
				t.Ops = append(t.Ops, &world.Op{Op: simrt.Pick(g.RNG, "commit", "rollback"), C: c, T: y})
				old = append(old, y)
			} else {
				t.Ops = append(t.Ops, g.useEnded(c, old)...)
			}
			if g.pct(30) {
				t.Ops = append(t.Ops, &world.Op{Op: "q", C: c, Spec: g.clean()})
			}
		}
	}
}

func (g *G) useEnded(c int, old []int) []*world.Op {
	var ops []*world.Op
	for n := 1 + g.Intn(3); n > 0; n-- {
		x := old[g.Intn(len(old))]
		switch g.Intn(6) {
		case 0:
			ops = append(ops, &world.Op{Op: "commit", C: c, T: x})
		case 1:
			ops = append(ops, &world.Op{Op: "rollback", C: c, T: x})
		case 2:
			ops = append(ops, &world.Op{Op: "isclosed", C: c, T: x})
		default:
			o := &world.Op{Op: "tq", C: c, T: x, Spec: g.clean()}
			o.WDB = g.pct(30)
			ops = append(ops, o)
		}
	}
	return ops
}

func (g *G) fEndedFaults() {
	g.fEnded()
	switch g.Intn(3) {
	case 0:
		g.failFault("begin", "commit", "rollback", "run", "pull")
	case 1:
		g.connFault("begin", "run", "pull", "commit", "rollback", "reset")
	case 2:
		g.failFault("commit", "rollback", "reset")
		g.failFault("run", "pull", "reset")
	}
}

// ---- failures

func (g *G) fFail() {
	g.failp = 0.45
	g.fDriver()
	if g.pct(40) {
		g.failFault("begin", "commit", "rollback")
	}
}

func (g *G) fFailReset() {
	g.failp = 0.5
	g.fDriver()
	switch g.Intn(3) {
	case 0:
		g.failFault("reset")
	case 1:
		g.connFault("reset")
	case 2:
		g.failFault("begin", "commit", "rollback")
		g.failFault("reset")
	}
}

func (g *G) fFailPool() {
	g.pool(1 + g.Intn(2))
	g.failp = 0.45
	g.poolTasks(2, 3, 3)
	if g.pct(50) {
		g.failFault("begin", "commit", "rollback", "reset")
	}
}

func (g *G) fBroken() {
	// something breaks, and then everything is tried again on the same connection
	for n := 1 + g.Intn(2); n > 0; n-- {
		c := g.newSlot()
		t := g.task(fmt.Sprintf("d%d", n), 0, g.open(c))
		t.Ops = append(t.Ops, g.work(c, 2+g.Intn(4))...)
		for k := 2 + g.Intn(3); k > 0; k-- {
			switch g.Intn(7) {
			case 0:
				t.Ops = append(t.Ops, &world.Op{Op: "validate", C: c})
			case 1:
				t.Ops = append(t.Ops, &world.Op{Op: "idle", C: c})
			case 2:
				t.Ops = append(t.Ops, g.txBlock(c)...)
			case 3:
				t.Ops = append(t.Ops, &world.Op{Op: "sleep", Ms: int64(g.Intn(3 * g.timeout()))})
			default:
				t.Ops = append(t.Ops, g.q(c))
			}
		}
		if g.pct(60) {
			t.Ops = append(t.Ops, &world.Op{Op: "close", C: c}, &world.Op{Op: "close", C: c}, g.q(c))
		}
	}
	for n := 1 + g.Intn(2); n > 0; n-- {
		f := g.connFault("run", "pull", "begin", "commit", "rollback", "reset", "any")
		if g.pct(25) {
			f.Act, f.Phase, f.DurMs = "delay", "", int64(g.timeout()+g.Intn(3*g.timeout()))
		}
	}
	g.smallBuf()
}

// ---- silent peers

func (g *G) silentAct(f *world.Fault) {
	f.Act = simrt.Pick(g.RNG, "stall", "stall", "hole", "noread", "srvstall", "srvhole", "crash")
	if f.Act == "crash" {
		f.Arg |= 2
	}
	f.DurMs = 0
	if g.pct(30) {
		f.DurMs = int64(g.timeout()/2 + g.Intn(20*g.timeout()))
	}
}

func (g *G) fSilent() {
	g.sc.Net.SndBuf = simrt.Pick(g.RNG, 0, 500, 4000)
	if g.pct(30) {
		g.big = 2
	}
	g.fDriver()
	for _, t := range g.sc.Tasks {
		if g.pct(50) && len(t.Ops) > 1 {
			k := 1 + g.Intn(len(t.Ops)-1)
			o := &world.Op{Op: "settimeout", C: t.Ops[0].C, Ms: int64(simrt.Pick(g.RNG, 300, 700, 1000, 2500))}
			t.Ops = append(t.Ops[:k:k], append([]*world.Op{o}, t.Ops[k:]...)...)
			for _, x := range t.Ops {
				if x.Spec != nil && int64(x.Spec.SlowMs) > o.Ms/3 {
					x.Spec.SlowMs = int(o.Ms / 3)
				}
			}
		}
	}
	for n := 1 + g.Intn(2); n > 0; n-- {
		g.silentAct(g.connFault("run", "pull", "begin", "commit", "rollback", "reset", "goodbye", "any"))
	}
	g.lightChunks()
}

func (g *G) fSilentConnect() {
	if g.pct(50) {
		g.tlsGood()
	}
	g.fDriver()
	f := g.connFault("dial", "accept", "hs", "hello", "tls")
	g.silentAct(f)
	if f.On == "dial" {
		f.Act = simrt.Pick(g.RNG, "srvhole", "crash")
		f.Arg |= 2
	}
}

func (g *G) fSilentPool() {
	g.pool(1 + g.Intn(3))
	g.poolTasks(2+g.Intn(3), 2, 3)
	g.silentAct(g.connFault("dial", "accept", "hs", "hello", "run", "pull", "begin", "commit", "rollback", "reset", "goodbye"))
	if g.sc.Faults[0].On == "dial" {
		g.sc.Faults[0].Act = "srvhole"
	}
}

func (g *G) fSilentRouted() {
	g.routed(2+g.Intn(3), 2+g.Intn(4))
	g.sc.Client.TimeoutMs = int64(simrt.Pick(g.RNG, 1, 2, 3)) * 1000
	g.routedTasks(2, 3, 200)
	g.silentAct(g.connFault("accept", "hs", "hello", "overview", "run", "pull", "goodbye"))
	if g.pct(40) {
		f := g.serverFault(g.Intn(len(g.sc.Servers)), 200000)
		g.silentAct(f)
	}
}

// ---- connecting

func (g *G) fConnect() {
	k := g.Intn(10)
	switch {
	case k < 5:
		g.fDriver()
	case k < 8:
		g.pool(1 + g.Intn(3))
		g.poolTasks(2, 2, 2)
	default:
		g.routed(2+g.Intn(3), 2+g.Intn(3))
		g.routedTasks(2, 2, 50)
	}
	if k < 8 && g.pct(25) {
		g.tlsGood()
	}
	for n := 1 + g.Intn(3); n > 0; n-- {
		switch g.Intn(7) {
		case 0:
			g.failFault("hello")
		case 1:
			f := &world.Fault{On: "hs", N: 1 + g.Intn(3), Srv: -1, Act: simrt.Pick(g.RNG, "version", "garbage"), Arg: int64(simrt.Pick(g.RNG, 0, 5, 6, 255, 65536, 0x01000003, 0x00000104))}
			g.sc.Faults = append(g.sc.Faults, f)
		case 2:
			g.serverFault(0, 50).Act = "authfail"
		case 3:
			f := &world.Fault{On: "hello", N: 1 + g.Intn(3), Srv: -1, Act: "mangle", Arg: int64(g.Uint64() >> 1)}
			g.sc.Faults = append(g.sc.Faults, f)
		default:
			f := g.connFault("hs", "hello", "accept", "tls")
			f.N = 1 + g.Intn(3)
		}
	}
}

func (g *G) fHandshake() {
	g.sc.Servers[0].Versions = simrt.Pick(g.RNG, []int{1}, []int{2}, []int{3}, []int{4}, []int{1, 4}, []int{2, 3}, []int{}, []int{5}, []int{4, 5})
	g.fDriver()
	if g.pct(60) {
		f := &world.Fault{On: "hs", N: 1 + g.Intn(2), Srv: -1, Act: simrt.Pick(g.RNG, "version", "version", "garbage"), Arg: int64(simrt.Pick(g.RNG, 1, 2, 3, 4, 0, 5, 6, 7, 255, 256, 260, 65536, 0x01000003, 0x00000104, 0x04000000, 0x00040000))}
		g.sc.Faults = append(g.sc.Faults, f)
	}
}

// ---- pools

func (g *G) fPool() {
	g.pool(1 + g.Intn(4))
	g.probe = g.pct(50)
	g.poolTasks(2+g.Intn(5), 3, 3)
	if g.pct(20) {
		g.stalls()
	}
}

func (g *G) fPoolFaults() {
	g.pool(1 + g.Intn(4))
	g.probe = g.pct(50)
	g.poolTasks(2+g.Intn(4), 3, 3)
	for n := 1 + g.Intn(3); n > 0; n-- {
		switch g.Intn(6) {
		case 0, 1:
			g.serverFault(0, 3000)
		case 2:
			g.failFault("run", "pull", "begin", "commit", "rollback", "reset", "hello")
		case 3: // idle connections die
			g.sc.Faults = append(g.sc.Faults, &world.Fault{AtMs: int64(g.Intn(5000)), Srv: 0, Act: simrt.Pick(g.RNG, "fin", "reset"), Arg: int64(g.Intn(2))})
		default:
			g.connFault()
		}
	}
	g.smallBuf()
}

// foreign has the pool be offered a connection that it never lent.
func (g *G) foreign(pct int) {
	c := g.sc.Client
	if c.TLS || c.Strict+c.Greater+c.Less > 0 || !g.pct(pct) {
		return
	}
	for n := 1 + g.Intn(2); n > 0; n-- {
		t := g.sc.Tasks[g.Intn(len(g.sc.Tasks))]
		at := g.Intn(len(t.Ops) + 1)
		op := &world.Op{Op: "foreign", N: g.Intn(2), Mode: simrt.Pick(g.RNG, "w", "r")}
		t.Ops = append(t.Ops[:at:at], append([]*world.Op{op}, t.Ops[at:]...)...)
	}
}

// meddlers give a connection back at the same moment as its borrower.
func (g *G) meddlers(c, pct int) {
	for n := 0; n < 2 && g.pct(pct); n++ {
		g.task(fmt.Sprintf("m%d.%d", c, n), 0, &world.Op{Op: "waitgive", C: c}, &world.Op{Op: "reclaim", C: c, N: 2})
	}
}

func (g *G) fReclaim() {
	g.pool(1 + g.Intn(3))
	g.probe = true
	for i := 0; i < 2+g.Intn(4); i++ {
		t := g.task(fmt.Sprintf("b%d", i), g.Intn(20))
		var old []int
		for k := 2 + g.Intn(3); k > 0; k-- {
			c := g.newSlot()
			t.Ops = append(t.Ops, g.open(c))
			t.Ops = append(t.Ops, g.work(c, 1+g.Intn(2))...)
			if len(old) > 0 && g.pct(40) { // give an old one back again while holding another
				t.Ops = append(t.Ops, &world.Op{Op: "reclaim", C: old[g.Intn(len(old))], N: 1})
				t.Ops = append(t.Ops, g.work(c, 1)...)
			}
			t.Ops = append(t.Ops, g.give(c)...)
			g.meddlers(c, 20)
			old = append(old, c)
			for g.pct(40) {
				t.Ops = append(t.Ops, &world.Op{Op: "reclaim", C: old[g.Intn(len(old))], N: 1})
			}
		}
	}
	g.foreign(30)
	if g.pct(40) {
		g.connFault()
	}
	if g.pct(20) {
		g.stalls()
	}
}

func (g *G) dirtyOps(c int) []*world.Op {
	var ops []*world.Op
	switch g.Intn(8) {
	case 0, 1:
		l, _ := g.leaveTx(c)
		ops = append(ops, l...)
	case 2: // transaction with a failed statement
		l, x := g.leaveTx(c)
		ops = append(ops, l...)
		sp := g.clean()
		sp.Fail, sp.FailAt = simrt.Pick(g.RNG, "run", "pull"), g.Intn(sp.Rows+1)
		ops = append(ops, &world.Op{Op: "tq", C: c, T: x, Spec: sp})
		if g.pct(50) {
			l, _ := g.leaveTx(c)
			ops = append(ops, l...)
		}
	case 3: // unencodable in a transaction
		l, x := g.leaveTx(c)
		ops = append(ops, l...)
		sp := g.clean()
		sp.Bad = true
		ops = append(ops, &world.Op{Op: "tq", C: c, T: x, Spec: sp})
	case 4:
		sp := g.clean()
		sp.Fail, sp.FailAt = simrt.Pick(g.RNG, "run", "pull"), g.Intn(sp.Rows+1)
		ops = append(ops, &world.Op{Op: "q", C: c, Spec: sp})
	case 5:
		ops = append(ops, &world.Op{Op: "close", C: c})
	case 6:
		ops = append(ops, g.txBlock(c)...)
	default:
		ops = append(ops, g.q(c))
		l, _ := g.leaveTx(c)
		ops = append(ops, l...)
	}
	if g.pct(10) {
		ops = append(ops, g.settings(c, true))
	}
	return ops
}

func (g *G) fDirty() {
	g.pool(1 + g.Intn(2))
	g.probe = g.pct(70)
	for i := 0; i < 1+g.Intn(3); i++ {
		t := g.task(fmt.Sprintf("b%d", i), g.Intn(20))
		for k := 2 + g.Intn(4); k > 0; k-- {
			c := g.newSlot()
			t.Ops = append(t.Ops, g.open(c))
			if g.pct(40) {
				t.Ops = append(t.Ops, g.q(c))
			}
			t.Ops = append(t.Ops, g.dirtyOps(c)...)
			t.Ops = append(t.Ops, &world.Op{Op: "reclaim", C: c})
			if g.pct(30) {
				t.Ops = append(t.Ops, &world.Op{Op: "sleep", Ms: int64(g.Intn(2000))})
			}
		}
	}
	if g.pct(50) {
		for n := 1 + g.Intn(2); n > 0; n-- {
			switch g.Intn(3) {
			case 0:
				g.sc.Faults = append(g.sc.Faults, &world.Fault{AtMs: int64(g.Intn(3000)), Srv: 0, Act: simrt.Pick(g.RNG, "fin", "reset"), Arg: int64(g.Intn(2))})
			case 1:
				g.connFault("run", "pull", "rollback", "rollback", "reset", "begin")
			case 2:
				g.failFault("rollback", "reset", "begin", "commit")
			}
		}
	}
}

func (g *G) fContended() {
	g.pool(1 + g.Intn(3))
	g.noTx = g.pct(50)
	g.poolTasks(4+g.Intn(6), 3, 2)
	g.schedule(true)
	if g.pct(30) {
		g.connFault()
	}
}

func (g *G) fOutage() {
	g.pool(1 + g.Intn(4))
	g.poolTasks(2+g.Intn(4), 3, 2)
	for _, t := range g.sc.Tasks {
		for k := g.Intn(3); k > 0; k-- {
			t.Ops = append(t.Ops, &world.Op{Op: "sleep", Ms: int64(g.Intn(8000))})
			t.Ops = append(t.Ops, g.borrow(1)...)
		}
	}
	for n := 1 + g.Intn(3); n > 0; n-- {
		f := g.serverFault(0, 8000)
		if g.pct(50) {
			f.DurMs = int64(g.Intn(20000))
		}
	}
	for n := g.Intn(3); n > 0; n-- {
		g.connFault("hello", "hs", "accept", "run", "pull")
	}
	g.sc.Epi.WaitMs = int64(simrt.Pick(g.RNG, 0, 10, 5000))
}

func (g *G) fPoolClose() {
	g.pool(1 + g.Intn(4))
	g.probe = g.pct(30)
	g.poolTasks(1+g.Intn(5), 3, 2)
	g.schedule(true)
	for n := 1 + g.Intn(2); n > 0; n-- {
		t := g.task(fmt.Sprintf("closer%d", n), g.Intn(simrt.Pick(g.RNG, 3, 30, 200)))
		for k := 1 + g.Intn(2); k > 0; k-- {
			t.Ops = append(t.Ops, &world.Op{Op: "poolclose"})
			if g.pct(50) {
				t.Ops = append(t.Ops, g.borrow(1)...)
			}
		}
	}
	g.foreign(10)
	if g.pct(30) {
		g.connFault()
	}
	if g.pct(15) {
		g.serverFault(0, 200)
	}
	if g.pct(15) && g.prop != "C16" {
		g.stalls()
	}
}

// ---- routed pools

func (g *G) routedTasks(n, cycles, sleepMs int) {
	sz := g.sc.Client.Size
	w, r := (sz+1)/2, sz/2
	for i := 0; i < n; i++ {
		g.wmode = simrt.Pick(g.RNG, "w", "r")
		t := g.task(fmt.Sprintf("b%d%s", i, g.wmode), g.Intn(50))
		_ = w
		_ = r
		for k := 1 + g.Intn(cycles); k > 0; k-- {
			if g.pct(25) {
				g.wmode = simrt.Pick(g.RNG, "w", "r")
			}
			t.Ops = append(t.Ops, g.borrow(1+g.Intn(2))...)
			if sleepMs > 0 && g.pct(60) {
				t.Ops = append(t.Ops, &world.Op{Op: "sleep", Ms: int64(g.Intn(sleepMs * 100))})
			}
		}
	}
	g.wmode = ""
}

func (g *G) fRouted() {
	g.routed(2+g.Intn(4), 2+g.Intn(5))
	g.probe = g.pct(50)
	g.routedTasks(2+g.Intn(3), 3, simrt.Pick(g.RNG, 0, 100, 600))
}

func (g *G) fRoutedFaults() {
	n := 2 + g.Intn(4)
	g.routed(n, 2+g.Intn(5))
	g.probe = g.pct(50)
	g.routedTasks(2+g.Intn(3), 4, simrt.Pick(g.RNG, 10, 300, 1200))
	for k := 1 + g.Intn(3); k > 0; k-- {
		switch g.Intn(6) {
		case 0, 1:
			f := g.serverFault(g.Intn(n), 200000)
			if g.pct(40) {
				f.DurMs = int64(g.Intn(300000))
			}
		case 2:
			g.connFault()
		case 3:
			g.sc.Faults = append(g.sc.Faults, &world.Fault{AtMs: int64(g.Intn(250000)), Srv: g.Intn(n), Act: simrt.Pick(g.RNG, "fin", "reset"), Arg: int64(g.Intn(2))})
		case 4:
			g.sc.Faults = append(g.sc.Faults, &world.Fault{On: "overview", N: 1 + g.Intn(3), Srv: -1, Act: "ovbad", Arg: int64(g.Uint64() >> 8)})
		case 5:
			f := g.connFault("overview", "overview", "hello", "hs", "pull", "goodbye")
			f.N = 1 + g.Intn(6)
		}
	}
}

// members come and go; the tasks keep asking
func (g *G) fMembers() {
	n := 3 + g.Intn(3)
	g.routed(n, 2+g.Intn(5))
	g.probe = g.pct(30)
	g.steady(2+g.Intn(2), 5+g.Intn(6))
	for k := 1 + g.Intn(4); k > 0; k-- {
		f := &world.Fault{AtMs: int64(g.Intn(500000)), Srv: g.Intn(n), Act: simrt.Pick(g.RNG, "crash", "crash", "refuse", "srvhole", "srvstall", "authfail"), Arg: int64(g.Intn(4)), DurMs: int64(g.Intn(simrt.Pick(g.RNG, 5000, 100000, 400000)))}
		g.sc.Faults = append(g.sc.Faults, f)
	}
	if g.pct(50) {
		g.roleChange(500000)
	}
	if g.pct(40) {
		g.sc.Faults = append(g.sc.Faults, &world.Fault{On: "overview", N: 1 + g.Intn(5), Srv: -1, Act: "ovbad", Arg: int64(g.Uint64() >> 8)})
	}
}

// steady: tasks that borrow, use and give back over many minutes.
func (g *G) steady(n, cycles int) {
	for i := 0; i < n; i++ {
		t := g.task(fmt.Sprintf("b%d", i), g.Intn(2000))
		for k := 0; k < cycles; k++ {
			g.wmode = simrt.Pick(g.RNG, "w", "r")
			c := g.newSlot()
			t.Ops = append(t.Ops, g.open(c))
			sp := g.clean()
			sp.Write = g.wmode == "w" && g.pct(50) && !(g.prop != "C14")
			t.Ops = append(t.Ops, &world.Op{Op: "q", C: c, Spec: sp})
			if g.pct(25) {
				t.Ops = append(t.Ops, g.work(c, 1)...)
			}
			if g.pct(20) { // hold it across a refresh
				t.Ops = append(t.Ops, &world.Op{Op: "sleep", Ms: int64(g.Intn(150000))})
			}
			t.Ops = append(t.Ops, g.give(c)...)
			t.Ops = append(t.Ops, &world.Op{Op: "sleep", Ms: int64(g.Intn(simrt.Pick(g.RNG, 1000, 60000, 150000)))})
		}
	}
	g.wmode = ""
}

func (g *G) roleChange(maxAt int) {
	n := len(g.sc.Servers)
	roles := make([]string, n)
	for i := range roles {
		roles[i] = simrt.Pick(g.RNG, "follower", "follower", "read_replica", "")
	}
	l := g.Intn(n)
	roles[l] = "leader"
	f := (l + 1 + g.Intn(n-1)) % n
	roles[f] = simrt.Pick(g.RNG, "follower", "read_replica")
	if n > 2 && g.pct(10) { // two claim to lead
		roles[(l+f+1)%n] = "leader"
		roles[f] = "follower"
	}
	g.sc.Faults = append(g.sc.Faults, &world.Fault{AtMs: int64(g.Intn(maxAt)), Srv: -1, Act: "roles", Roles: roles})
	if g.pct(20) { // members that are not used any more do not take their leave
		for k := 1; k < 8; k++ {
			if g.pct(50) {
				g.sc.Faults = append(g.sc.Faults, &world.Fault{On: "wgoodbye", N: k, Srv: l, Act: "sever", Arg: int64(g.Uint64() >> 8)})
			}
		}
	}
}

func (g *G) fTopology() {
	g.routed(2+g.Intn(5), 2+g.Intn(6))
	g.probe = g.pct(30)
	g.steady(2+g.Intn(2), 4+g.Intn(6))
	for k := 1 + g.Intn(3); k > 0; k-- {
		g.roleChange(500000)
	}
	if g.pct(35) { // for a time there is no leader, or nobody to read from
		at := int64(g.Intn(400000))
		f := &world.Fault{AtMs: at, Srv: -1, Act: "roles"}
		what := simrt.Pick(g.RNG, "leader", "follower", "none")
		for range g.sc.Servers {
			switch what {
			case "leader":
				f.Roles = append(f.Roles, simrt.Pick(g.RNG, "follower", "read_replica", ""))
			default:
				f.Roles = append(f.Roles, "")
			}
		}
		if what == "follower" {
			f.Roles[g.Intn(len(f.Roles))] = "leader"
		}
		g.sc.Faults = append(g.sc.Faults, f)
		g.roleChange(1)
		g.sc.Faults[len(g.sc.Faults)-1].AtMs = at + 1000 + int64(g.Intn(400000))
	}
}

func (g *G) fTopologyFaults() {
	g.fTopology()
	for k := 1 + g.Intn(2); k > 0; k-- {
		switch g.Intn(4) {
		case 0:
			g.sc.Faults = append(g.sc.Faults, &world.Fault{On: "overview", N: 1 + g.Intn(5), Srv: -1, Act: "ovbad", Arg: int64(g.Uint64() >> 8)})
		case 1:
			g.connFault("overview", "pull", "hello", "run")
		default:
			n := len(g.sc.Servers)
			g.sc.Faults = append(g.sc.Faults, &world.Fault{AtMs: int64(g.Intn(500000)), Srv: g.Intn(n), Act: simrt.Pick(g.RNG, "crash", "refuse", "srvhole"), Arg: int64(g.Intn(4)), DurMs: int64(g.Intn(200000))})
		}
	}
}

func (g *G) fRoutedReclaim() {
	g.routed(2+g.Intn(3), 2+g.Intn(4))
	g.probe = true
	for i := 0; i < 2+g.Intn(3); i++ {
		g.wmode = simrt.Pick(g.RNG, "w", "r")
		t := g.task(fmt.Sprintf("b%d", i), g.Intn(20))
		var old []int
		for k := 2 + g.Intn(3); k > 0; k-- {
			c := g.newSlot()
			t.Ops = append(t.Ops, g.open(c))
			t.Ops = append(t.Ops, g.work(c, 1)...)
			t.Ops = append(t.Ops, g.give(c)...)
			g.meddlers(c, 20)
			old = append(old, c)
			if g.pct(50) {
				t.Ops = append(t.Ops, &world.Op{Op: "reclaim", C: old[g.Intn(len(old))], N: 1})
			}
		}
	}
	g.foreign(30)
	g.wmode = ""
	if g.pct(40) {
		g.connFault()
	}
}

// everything is on loan while the topology changes, and somebody asks for more
func (g *G) fRoutedHeld() {
	n := 2 + g.Intn(4)
	g.routed(n, 2+g.Intn(4))
	g.probe = g.pct(70)
	for i := 0; i < 2+g.Intn(3); i++ {
		g.wmode = simrt.Pick(g.RNG, "w", "r")
		t := g.task(fmt.Sprintf("b%d", i), g.Intn(3000))
		var held []int
		for k := 2 + g.Intn(4); k > 0; k-- {
			c := g.newSlot()
			t.Ops = append(t.Ops, g.open(c), &world.Op{Op: "q", C: c, Spec: g.clean()})
			held = append(held, c)
			t.Ops = append(t.Ops, &world.Op{Op: "sleep", Ms: int64(g.Intn(simrt.Pick(g.RNG, 1000, 60000, 200000)))})
			if g.pct(35) {
				h := g.Intn(len(held))
				t.Ops = append(t.Ops, g.give(held[h])...)
				held = append(held[:h], held[h+1:]...)
			}
		}
	}
	g.wmode = ""
	for k := 1 + g.Intn(3); k > 0; k-- {
		g.roleChange(400000)
	}
	if g.pct(30) {
		g.sc.Faults = append(g.sc.Faults, &world.Fault{AtMs: int64(g.Intn(400000)), Srv: g.Intn(n), Act: simrt.Pick(g.RNG, "fin", "reset", "crash"), Arg: int64(g.Intn(2)), DurMs: int64(g.Intn(100000))})
	}
}

func (g *G) fRoutedDirty() {
	g.routed(2+g.Intn(2), 2+g.Intn(2))
	g.probe = g.pct(70)
	for i := 0; i < 1+g.Intn(2); i++ {
		g.wmode = simrt.Pick(g.RNG, "w", "r")
		t := g.task(fmt.Sprintf("b%d", i), g.Intn(20))
		for k := 2 + g.Intn(4); k > 0; k-- {
			c := g.newSlot()
			t.Ops = append(t.Ops, g.open(c))
			t.Ops = append(t.Ops, g.dirtyOps(c)...)
			t.Ops = append(t.Ops, &world.Op{Op: "reclaim", C: c})
		}
	}
	g.wmode = ""
	if g.pct(30) {
		g.connFault("run", "pull", "rollback", "reset", "begin")
	}
}

func (g *G) fRoutedClose() {
	g.routed(2+g.Intn(3), 2+g.Intn(4))
	long := g.pct(60)
	if long {
		g.steady(1+g.Intn(3), 2+g.Intn(3))
	} else {
		g.routedTasks(1+g.Intn(4), 3, 10)
	}
	g.schedule(true)
	at := g.Intn(simrt.Pick(g.RNG, 10, 1000))
	if long {
		at = simrt.Pick(g.RNG, 120000+g.Intn(200)-20, g.Intn(300000), 240000+g.Intn(100))
	}
	t := g.task("closer", at)
	if g.pct(20) { // while the topology is being refreshed
		t.StartMs = int64(simrt.Pick(g.RNG, 119900, 119000, 239000))
		t.Ops = append(t.Ops, &world.Op{Op: "waitdial"})
		if g.pct(50) {
			t.Ops = append(t.Ops, &world.Op{Op: "sleep", Ms: int64(g.Intn(20))})
		}
	}
	t.Ops = append(t.Ops, &world.Op{Op: "poolclose"})
	if g.pct(40) {
		t.Ops = append(t.Ops, g.borrow(1)...)
		t.Ops = append(t.Ops, &world.Op{Op: "poolclose"})
	}
	if g.pct(25) { // two at the same time
		g.task("closer2", at+g.Intn(2), &world.Op{Op: "poolclose"})
	}
	g.foreign(10)
	if g.pct(40) {
		g.connFault("overview", "hello", "goodbye", "run", "pull", "hs")
	}
	if g.pct(25) {
		f := g.serverFault(g.Intn(len(g.sc.Servers)), 250000)
		f.DurMs = int64(g.Intn(150000))
	}
	if g.pct(15) && !long && g.prop != "C16" {
		g.stalls()
	}
	g.sc.Epi.Drain = false
	g.sc.Epi.WaitMs = int64(g.Intn(5000))
}

// ---- races

func (g *G) fRacePool() {
	g.pool(1 + g.Intn(4))
	g.noBad = true
	g.poolTasks(2+g.Intn(4), 3, 2)
	g.schedule(true)
	if g.pct(30) {
		g.task("closer", g.Intn(60), &world.Op{Op: "poolclose"})
	}
	if g.pct(30) {
		g.connFault()
	}
}

func (g *G) fRaceRouted() {
	g.routed(2+g.Intn(3), 2+g.Intn(4))
	g.schedule(true)
	g.routedTasks(2+g.Intn(3), 3, 0)
	g.steady(1+g.Intn(2), 2)
	// activity right around a refresh
	for i := 0; i < 2; i++ {
		t := g.task(fmt.Sprintf("r%d", i), 119990+g.Intn(15))
		for k := 1 + g.Intn(3); k > 0; k-- {
			t.Ops = append(t.Ops, g.borrow(1)...)
		}
	}
	if g.pct(50) { // every connection is lost, and several are opened anew at once
		for k := range g.sc.Servers {
			g.sc.Faults = append(g.sc.Faults, &world.Fault{AtMs: 60000, Srv: k, Act: simrt.Pick(g.RNG, "fin", "reset"), Arg: int64(g.Intn(2))})
		}
		mode := simrt.Pick(g.RNG, "w", "r")
		for i := 0; i < 2+g.Intn(2); i++ {
			g.wmode = mode
			t := g.task(fmt.Sprintf("n%d", i), 60100+g.Intn(5))
			t.Ops = append(t.Ops, g.borrow(1)...)
		}
		g.wmode = ""
	}
	if g.pct(40) {
		g.roleChange(110000)
	}
	if g.pct(30) {
		g.task("closer", 119995+g.Intn(20), &world.Op{Op: "poolclose"})
	}
	if g.pct(30) {
		g.sc.Faults = append(g.sc.Faults, &world.Fault{AtMs: int64(g.Intn(119000)), Srv: g.Intn(len(g.sc.Servers)), Act: simrt.Pick(g.RNG, "fin", "reset"), Arg: int64(g.Intn(2))})
	}
}

func (g *G) fManyConns() {
	g.schedule(true)
	for n := 3 + g.Intn(3); n > 0; n-- {
		g.driverTask(fmt.Sprintf("d%d", n), 1+g.Intn(4))
	}
}

// ---- odd replies

func (g *G) mangleFault(evs ...string) *world.Fault {
	f := &world.Fault{On: simrt.Pick(g.RNG, evs...), N: 1 + g.Intn(4), Srv: -1, Act: "mangle", Arg: int64(g.Uint64() >> 1)}
	g.sc.Faults = append(g.sc.Faults, f)
	return f
}

func (g *G) fMangle() {
	g.sc.MemMax = 200 << 20
	g.noTx = g.pct(30)
	for n := 1 + g.Intn(2); n > 0; n-- {
		c := g.newSlot()
		t := g.task(fmt.Sprintf("d%d", n), 0, g.open(c))
		t.Ops = append(t.Ops, g.work(c, 3+g.Intn(5))...)
	}
	for n := 1 + g.Intn(3); n > 0; n-- {
		g.mangleFault("pull", "pull", "pull", "run", "begin", "commit", "rollback", "reset")
	}
	g.small()
}

// small keeps payloads small, so that memory use can be judged.
func (g *G) small() {
	for _, t := range g.sc.Tasks {
		for _, o := range t.Ops {
			if o.Spec != nil {
				if o.Spec.Rows > 20 {
					o.Spec.Rows = 20
				}
				if o.Spec.Sz > 1 {
					o.Spec.Sz = 1
				}
				if o.Spec.RSz > 1 {
					o.Spec.RSz = 1
				}
			}
		}
	}
}

// fNested: replies that are small and still take up stack or memory without bound.
func (g *G) fNested() {
	g.noTx = g.pct(30)
	c := g.newSlot()
	t := g.task("d1", 0, g.open(c))
	t.Ops = append(t.Ops, g.work(c, 2+g.Intn(4))...)
	f := g.mangleFault("pull", "pull", "pull", "run", "begin", "commit", "hello")
	if f.N = 1 + g.Intn(2); f.On == "hello" {
		f.N = 1
	}
	f.Str = "nest"
	if g.pct(60) {
		f.Str = "bomb"
		g.sc.MemMax = 200 << 20
	}
	if g.sc.Net.Seg == "rand" || g.sc.Net.Seg == "bytes" {
		g.sc.Net.Seg = ""
	}
	g.small()
}

func (g *G) fManglePool() {
	g.sc.MemMax = 200 << 20
	g.pool(1 + g.Intn(2))
	g.poolTasks(2, 2, 3)
	for n := 1 + g.Intn(3); n > 0; n-- {
		g.mangleFault("pull", "pull", "run", "begin", "commit", "rollback", "reset", "hello")
	}
	g.small()
}

func (g *G) fMangleConnect() {
	g.sc.MemMax = 200 << 20
	g.fDriver()
	if g.pct(70) {
		g.mangleFault("hello").N = 1 + g.Intn(2)
	} else {
		g.sc.Faults = append(g.sc.Faults, &world.Fault{On: "hs", N: 1, Srv: -1, Act: "garbage", Arg: int64(g.Intn(10000))})
	}
	g.small()
}

func (g *G) fMangleRouted() {
	g.sc.MemMax = 400 << 20
	g.routed(2+g.Intn(2), 2+g.Intn(2))
	g.routedTasks(2, 3, 900)
	for n := 1 + g.Intn(2); n > 0; n-- {
		if g.pct(50) {
			g.sc.Faults = append(g.sc.Faults, &world.Fault{On: "overview", N: 1 + g.Intn(3), Srv: -1, Act: "ovbad", Arg: int64(g.Uint64() >> 8)})
		} else {
			g.mangleFault("overview", "pull", "hello", "run")
		}
	}
	g.small()
}

func (g *G) fCounters() {
	g.failp = 0
	g.fDriver()
	for _, t := range g.sc.Tasks {
		for _, o := range t.Ops {
			if o.Spec != nil {
				o.Spec.Stats = g.Intn(64)
				if g.pct(25) {
					o.Spec.Stats |= 256
				}
				if g.pct(8) {
					o.Spec.Stats |= 512
				}
			}
		}
	}
}

// every kind and size of value, from a correct server
func (g *G) fTypes() {
	g.noBad, g.failp = true, 0
	g.big = 2
	g.fDriver()
	for _, t := range g.sc.Tasks {
		for _, o := range t.Ops {
			if o.Spec != nil {
				o.Spec.RSz = simrt.Pick(g.RNG, 0, 1, 2)
				o.Spec.Rows = 1 + g.Intn(12)
				o.Spec.Cols = 2 + g.Intn(5)
				o.Spec.Exec = false
			}
		}
	}
	g.lightChunks()
}

// ---- security

func (g *G) tlsGood() {
	g.sc.Client.TLS = true
	g.sc.Client.CA = true
	g.sc.Client.Via = simrt.Pick(g.RNG, "opts", "url", "urlopt")
	for _, s := range g.sc.Servers {
		s.TLS = "good"
	}
	if g.sc.Servers[0].Host == "db.sim" && g.pct(15) {
		g.sc.Client.NoVerify = true
	}
	if g.pct(20) {
		g.sc.Client.Cert = true
	}
}

func (g *G) tlsAny() {
	cl := &g.sc.Client
	cl.TLS = true
	cl.Via = simrt.Pick(g.RNG, "opts", "opts", "url", "urlopt")
	cl.CA = g.pct(70)
	cl.Cert = g.pct(35)
	cl.NoVerify = g.pct(30)
	k := simrt.Pick(g.RNG, "good", "good", "good", "wronghost", "expired", "selfsigned", "mutual", "")
	for _, s := range g.sc.Servers {
		s.TLS = k
	}
}

func (g *G) fTLS() {
	g.tlsAny()
	g.noBad = true
	g.fDriver()
	if g.pct(30) {
		g.connFault("tls", "hs", "hello", "run", "pull")
	}
	for _, t := range g.sc.Tasks {
		if g.pct(50) {
			t.Ops = append(t.Ops, g.open(g.newSlot()))
		}
	}
}

func (g *G) fTLSPool() {
	g.pool(1 + g.Intn(3))
	g.tlsAny()
	g.poolTasks(2, 3, 2)
	g.replacements()
}

// replacements: connections die, so that new ones have to be made.
func (g *G) replacements() {
	for n := g.Intn(3); n > 0; n-- {
		if g.pct(50) {
			g.connFault("run", "pull", "hello", "reset")
		} else {
			g.sc.Faults = append(g.sc.Faults, &world.Fault{AtMs: int64(g.Intn(3000)), Srv: g.Intn(len(g.sc.Servers)), Act: simrt.Pick(g.RNG, "fin", "reset")})
		}
	}
}

func (g *G) fTLSRouted() {
	g.routed(2+g.Intn(3), 2+g.Intn(3))
	if g.pct(60) {
		g.tlsGood()
	} else {
		g.tlsAny()
	}
	g.secRouted()
}

func (g *G) secRouted() {
	if g.pct(40) { // a server that is no member of the cluster
		g.sc.Servers = append(g.sc.Servers, &world.ServerCfg{Host: "other.sim", Port: 7687, Versions: []int{1, 2, 3, 4}, Role: "follower", Hidden: true, TLS: g.sc.Servers[0].TLS})
	}
	g.routedTasks(2, 3, 1000)
	for n := g.Intn(3); n > 0; n-- {
		g.sc.Faults = append(g.sc.Faults, &world.Fault{AtMs: int64(g.Intn(200000)), Srv: g.Intn(len(g.sc.Servers)), Act: simrt.Pick(g.RNG, "fin", "reset", "crash"), DurMs: 1000})
	}
	if g.pct(30) {
		n := 0
		for _, s := range g.sc.Servers {
			if !s.Hidden {
				n++
			}
		}
		all := g.sc.Servers
		g.sc.Servers = all[:n]
		g.roleChange(200000)
		g.sc.Servers = all
	}
}

var odd = []string{"a:b", "p@ss", "per%cent", "sl/ash", "ques?tion", "ha#sh", "sp ace", "pl+us", "ü€", "amp&er=eq", "[br]", "%41", "%2F", ";,'\"", "\\back", "a%zz", "tab\t", "~-_.!*()", "x:y@z/w?q#f"}

// nobody: a connection string that names no user
func (g *G) nobody(pct int) {
	if g.pct(pct) {
		g.sc.Client.User, g.sc.Client.Pass = "", ""
	}
}

func (g *G) oddCreds() {
	cl := &g.sc.Client
	cl.User = "u" + simrt.Pick(g.RNG, odd...)
	cl.Pass = simrt.Pick(g.RNG, odd...) + fmt.Sprint(g.Intn(1000))
	if g.pct(20) {
		cl.Pass += simrt.Pick(g.RNG, odd...)
	}
	if g.pct(8) {
		cl.Pass = ""
	}
	g.nobody(6)
}

func (g *G) fCreds() {
	g.oddCreds()
	switch g.Intn(3) {
	case 0:
		g.pool(1 + g.Intn(2))
		g.poolTasks(2, 2, 2)
		g.replacements()
	default:
		g.fDriver()
	}
	if g.pct(30) {
		g.failFault("hello")
	}
	if g.pct(20) {
		g.serverFault(0, 200).Act = "authfail"
	}
	if g.pct(25) {
		g.tlsGood()
	}
}

func (g *G) fCredsRouted() {
	g.oddCreds()
	g.routed(2+g.Intn(3), 2+g.Intn(3))
	if g.pct(25) {
		g.tlsGood()
	}
	g.secRouted()
}

// ---- databases

func (g *G) fDB() {
	g.dbp = 0.6
	if g.pct(50) {
		g.sc.Servers[0].Versions = []int{4}
	}
	g.fDriver()
}

func (g *G) fDBPool() {
	g.dbp = 0.6
	g.pool(1 + g.Intn(2))
	g.poolTasks(2, 2, 3)
}

func (g *G) fDBRouted() {
	g.dbp = 0.6
	g.routed(2+g.Intn(2), 2+g.Intn(2))
	g.routedTasks(2, 2, 10)
}

// ---- the other properties, with a routed pool

func (g *G) fFailRouted() {
	g.routed(2+g.Intn(2), 2+g.Intn(3))
	g.failp = 0.45
	g.routedTasks(2, 3, 10)
	if g.pct(50) {
		g.failFault("begin", "commit", "rollback", "reset")
	}
}

func (g *G) fNetRouted() {
	g.routed(2+g.Intn(3), 2+g.Intn(3))
	g.netStyle()
	for _, s := range g.sc.Servers {
		s.Chunk = simrt.Pick(g.RNG, "small", "rand", "page", "")
	}
	g.steady(1+g.Intn(2), 2+g.Intn(3))
}

// ---- temporal and spatial values

// temporals gives statements values of the types protocol version 2 added. A
// server that only speaks version 1 cannot be sent them.
func (g *G) temporals() {
	lo, hi := 9, 0
	for _, s := range g.sc.Servers {
		m := 0
		for _, v := range s.Versions {
			if v > m && g.sc.Client.Allows(v) {
				m = v
			}
		}
		if m > hi {
			hi = m
		}
		if m < lo {
			lo = m
		}
	}
	for _, o := range g.sc.Others {
		m := 0
		for _, v := range g.sc.Servers[o.Srv].Versions {
			if v > m && o.Allows(v) {
				m = v
			}
		}
		if m < lo {
			lo = m
		}
	}
	for _, f := range g.sc.Faults {
		if f.Act == "version" && f.Arg == 1 {
			lo = 1
		}
	}
	for _, t := range g.sc.Tasks {
		for _, o := range t.Ops {
			if o.Spec == nil {
				continue
			}
			if g.pct(g.tmp) {
				o.Spec.RTmp = true
			}
			if g.pct(g.tmp) && (lo > 1 || hi == 1 && o.Spec.Bad) {
				o.Spec.Tmp = 1 + g.Intn(3)
			}
		}
	}
}

func (g *G) temporal() {
	g.tmp = 80
	g.failp = 0.04
	for _, s := range g.sc.Servers {
		if g.pct(93) {
			s.Versions = simrt.Pick(g.RNG, []int{2}, []int{3}, []int{4}, []int{1, 2}, []int{1, 2, 3}, []int{1, 2, 3, 4}, []int{4, 3})
		}
	}
}

func (g *G) fTemporal() {
	g.temporal()
	g.fDriver()
	g.typesRows()
}

func (g *G) fTemporalNet() {
	g.temporal()
	g.netStyle()
	g.fDriver()
	g.typesRows()
}

func (g *G) fTemporalFaults() {
	g.temporal()
	g.fDriverFaults()
	g.typesRows()
}

func (g *G) fTemporalPool() {
	g.temporal()
	g.fPool()
}

func (g *G) fTemporalRouted() {
	g.fRouted()
	g.temporal()
}

func (g *G) typesRows() {
	for _, t := range g.sc.Tasks {
		for _, o := range t.Ops {
			if o.Spec != nil && g.pct(60) {
				o.Spec.Rows = 1 + g.Intn(12)
				o.Spec.Cols = 2 + g.Intn(5)
				o.Spec.Exec = false
			}
		}
	}
}

// ---- configuration

// config spreads the configuration over options and connection string.
func (g *G) config() {
	cl := &g.sc.Client
	cl.Split = g.Uint64() | 1<<63
	cl.Via = simrt.Pick(g.RNG, "opts", "url", "url", "urlopt")
	if g.pct(60) {
		g.oddCreds()
	}
	if g.pct(70) {
		cl.Chunk = simrt.Pick(g.RNG, 1, 2, 7, 16, 64, 100, 255, 256, 1000, 8192, 65535, 1+g.Intn(2000))
	}
	cl.TimeoutMs = simrt.Pick(g.RNG, int64(0), 1000, 1500, 2000, 3000, 5000, 700, 90000, 61000)
	if cl.Via == "url" && cl.Split>>4&1 == 0 && cl.TimeoutMs%1000 != 0 {
		cl.Split |= 1 << 4
	}
	if g.pct(45) {
		via := cl.Via
		if g.pct(70) {
			g.tlsGood()
		} else {
			g.tlsAny()
		}
		cl.Via = via
	}
}

func (g *G) fConfig() {
	g.config()
	g.noBad = true
	g.fDriver()
	g.lightChunks()
	if g.pct(25) {
		g.sc.Net.SndBuf = 4096
	}
}

func (g *G) fConfigPool() {
	g.pool(1 + g.Intn(3))
	g.config()
	g.poolTasks(2+g.Intn(3), 2, 2)
	g.replacements()
}

func (g *G) fConfigRouted() {
	g.routed(2+g.Intn(3), 2+g.Intn(3))
	g.config()
	g.nobody(10)
	g.secRouted()
}

func (g *G) fVersions() {
	cl := &g.sc.Client
	if g.pct(25) {
		g.fRouted()
	} else if g.pct(40) {
		g.fPool()
	} else {
		g.fDriver()
	}
	cl.Split = g.Uint64()
	if cl.TimeoutMs%1000 != 0 {
		cl.Split |= 1 << 4
	}
	switch g.Intn(4) {
	case 0:
		cl.Strict = 1 + g.Intn(4)
	case 1:
		cl.Greater = 1 + g.Intn(3)
	case 2:
		cl.Less = 2 + g.Intn(3)
	default:
		cl.Greater, cl.Less = 1+g.Intn(2), 4
	}
	for _, s := range g.sc.Servers { // servers that speak one the options allow
		ok := false
		for _, v := range s.Versions {
			ok = ok || cl.Allows(v)
		}
		if !ok || g.pct(60) {
			s.Versions = []int{1, 2, 3, 4}
		}
	}
}

// fConfigSilent: servers fall silent, which shows the timeout in force.
func (g *G) fConfigSilent() {
	switch g.Intn(4) {
	case 0:
		g.fSilent()
	case 1:
		g.fSilentConnect()
	case 2:
		g.fSilentRouted()
	default:
		g.fSilentPool()
	}
	tls := g.sc.Client.TLS
	t := g.sc.Client.TimeoutMs
	g.config()
	g.sc.Client.TLS, g.sc.Client.TimeoutMs = tls, t
	if t%1000 != 0 {
		g.sc.Client.Split |= 1 << 4
	}
	if !tls {
		for _, s := range g.sc.Servers {
			s.TLS = ""
		}
	}
}

var wrongs = []string{"no-options", "nil-option", "address-twice", "routing-and-string", "no-host", "no-address", "bad-port", "no-user", "bad-scheme", "no-password", "bad-timeout", "bad-chunk", "bad-string", "pool-size", "routed-size", "routed-driver", "bad-version", "no-version", "no-file"}

func (g *G) fWrong() {
	cl := &g.sc.Client
	cl.Wrong = simrt.Pick(g.RNG, wrongs...)
	cl.Split = g.Uint64()
	switch g.Intn(3) {
	case 0:
		g.pool(1 + g.Intn(2))
	}
	g.sc.Epi = world.Epilogue{}
}

// fUnasked: a server sends bytes nobody asked for while connections lie idle
// in a pool; whoever borrows next must not get them.
func (g *G) fUnasked() {
	if g.pct(70) {
		g.pool(1 + g.Intn(3))
	} else {
		g.routed(2+g.Intn(2), 2+g.Intn(2))
	}
	g.noTx = g.pct(50)
	for i := 0; i < 1+g.Intn(2); i++ {
		t := g.task(fmt.Sprintf("b%d", i), g.Intn(20))
		for k := 2 + g.Intn(4); k > 0; k-- {
			t.Ops = append(t.Ops, g.borrow(1+g.Intn(2))...)
			t.Ops = append(t.Ops, &world.Op{Op: "sleep", Ms: int64(200 + g.Intn(1500))})
		}
	}
	for n := 1 + g.Intn(4); n > 0; n-- {
		g.sc.Faults = append(g.sc.Faults, &world.Fault{AtMs: int64(100 + g.Intn(4000)), Srv: -1, Act: "unasked", Arg: int64(g.Intn(4))})
	}
}

// fTopologyDial: connections are being opened, slowly, at the moment a refresh
// learns that the member they go to has another role now.
func (g *G) fTopologyDial() {
	n := 2 + g.Intn(4)
	g.routed(n, 2+g.Intn(6))
	g.probe = g.pct(30)
	for i := 0; i < 1+g.Intn(4); i++ {
		g.wmode = simrt.Pick(g.RNG, "w", "r")
		t := g.task(fmt.Sprintf("b%d%s", i, g.wmode), 119500+g.Intn(600))
		if g.pct(15) {
			t.StartMs = int64(g.Intn(3000))
			t.Ops = append(t.Ops, g.borrow(1)...)
			t.Ops = append(t.Ops, &world.Op{Op: "sleep", Ms: int64(117000 + g.Intn(4000))})
		}
		for k := 1 + g.Intn(4); k > 0; k-- {
			t.Ops = append(t.Ops, g.borrow(1)...)
			t.Ops = append(t.Ops, &world.Op{Op: "sleep", Ms: int64(g.Intn(10000))})
		}
	}
	g.wmode = ""
	g.roleChange(1)
	g.sc.Faults[len(g.sc.Faults)-1].AtMs = int64(1000 + g.Intn(118500))
	for k := 1 + g.Intn(2); k > 0; k-- {
		g.sc.Faults = append(g.sc.Faults, &world.Fault{AtMs: int64(119300 + g.Intn(500)), Srv: 1 + g.Intn(n-1), Act: "srvstall", DurMs: int64(500 + g.Intn(2500))})
	}
}

// fClients: several clients of one process, each with a configuration of its
// own, work side by side; none of them gets anything of another's.
func (g *G) fClients() {
	sc := g.sc
	s2 := *sc.Servers[0]
	s2.Port = 7690
	s2.Versions = g.versions()
	sc.Servers = append(sc.Servers, &s2)
	g.config()
	if g.pct(60) {
		s2.TLS = simrt.Pick(g.RNG, "", "good", "good", "mutual", "selfsigned", "wronghost", "expired")
	}
	tls := []string{sc.Servers[0].TLS, s2.TLS}
	main := sc.Client
	for n := 1 + g.Intn(2); n > 0; n-- {
		sc.Client = world.ClientCfg{Kind: "driver", User: "other", Pass: fmt.Sprintf("o%x", g.Uint64()%0xffffff)}
		cl := &sc.Client
		g.config()
		cl.Srv = simrt.Pick(g.RNG, 0, 0, 1)
		cl.TLS = tls[cl.Srv] != ""
		if g.pct(8) {
			cl.TLS = !cl.TLS
		}
		cl.CA, cl.Cert, cl.NoVerify = false, false, false
		if cl.TLS {
			cl.CA, cl.Cert, cl.NoVerify = g.pct(70), g.pct(35), g.pct(30)
		}
		switch g.Intn(6) {
		case 0:
			cl.Strict = 1 + g.Intn(4)
		case 1:
			cl.Greater = 1 + g.Intn(3)
		case 2:
			cl.Less = 2 + g.Intn(3)
		}
		ok := false
		for _, v := range sc.Servers[cl.Srv].Versions {
			ok = ok || cl.Allows(v)
		}
		if !ok {
			sc.Servers[cl.Srv].Versions = []int{1, 2, 3, 4}
		}
		o := *cl
		sc.Others = append(sc.Others, &o)
	}
	sc.Client = main
	for i := range tls {
		sc.Servers[i].TLS = tls[i]
	}
	g.noBad = true
	for n := 2 + g.Intn(3); n > 0; n-- {
		g.driverTask(fmt.Sprintf("d%d", n), 1+g.Intn(4))
	}
	small := sc.Client.Chunk > 0 && sc.Client.Chunk < 50
	for _, o := range sc.Others {
		small = small || o.Chunk > 0 && o.Chunk < 50
	}
	for _, t := range sc.Tasks {
		for _, o := range t.Ops {
			if o.Op == "open" {
				o.Cl = g.Intn(len(sc.Others) + 1)
			}
			small = small || o.Op == "chunk" && o.N < 50
			if o.Spec != nil && small && o.Spec.Sz == 2 {
				o.Spec.Sz = 1
				o.Spec.Txt %= 600
			}
		}
	}
	if g.pct(30) {
		g.connFault("hello", "hs", "run", "pull", "begin", "commit")
	}
}
