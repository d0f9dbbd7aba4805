// Package gen makes the scenarios of each check from a seed.
package gen

import (
	"fmt"

	"verif.local/sim/simrt"
	"verif.local/sim/world"
)

type G struct {
	*simrt.RNG
	sc   *world.Scenario
	tag  int
	slot int
	tx   int
	prop string

	noFail, noBad, noDB, noTx bool
	big                       int // parameter and row size class
	probe                     bool
	wmode                     string
	dbp                       float64
	failp                     float64
	tmp                       int // percentage of statements with temporal values
}

// Seed is the seed of run number i of a check.
func Seed(seed uint64, prop string, i int) uint64 {
	h := simrt.Mix(seed ^ 0x51ED)
	for _, c := range prop {
		h = simrt.Mix(h ^ uint64(c))
	}
	return simrt.Mix(h ^ uint64(i)*0x9E3779B97F4A7C15)
}

// Make builds the scenario with this seed for a property's check.
func Make(prop string, seed uint64) *world.Scenario {
	g := &G{RNG: simrt.NewRNG(seed), prop: prop}
	g.sc = &world.Scenario{Prop: prop, Seed: seed}
	g.dbp, g.failp, g.tmp = 0.08, 0.08, 7
	if prop == "ALL" { // whatever any check would do, for experiments
		prop = fmt.Sprintf("C%02d", 1+g.Intn(22))
		g.prop = prop
	}
	fl := flavours(prop)
	tot := 0
	for _, f := range fl {
		tot += f.w
	}
	k := g.Intn(tot)
	for _, f := range fl {
		k -= f.w
		if k < 0 {
			g.sc.Name = f.name
			g.base()
			f.fn(g)
			break
		}
	}
	g.finish()
	return g.sc
}

type flavour struct {
	name string
	w    int
	fn   func(*G)
}

func flavours(prop string) []flavour {
	F := func(n string, w int, fn func(*G)) flavour { return flavour{n, w, fn} }
	driver := F("driver", 4, (*G).fDriver)
	driverF := F("driver-faults", 3, (*G).fDriverFaults)
	shared := F("shared", 3, (*G).fShared)
	pool := F("pool", 4, (*G).fPool)
	poolF := F("pool-faults", 4, (*G).fPoolFaults)
	routed := F("routed", 2, (*G).fRouted)
	routedF := F("routed-faults", 2, (*G).fRoutedFaults)
	w := func(f flavour, n int) flavour { f.w = n; return f }
	switch prop {
	case "C01":
		return []flavour{driver, w(driverF, 4), shared, w(pool, 2), w(poolF, 2), w(routed, 1), w(routedF, 1), F("tx-pool", 1, (*G).fTxPool), F("dirty", 1, (*G).fDirty), F("timeouts", 2, (*G).fTimeoutReuse), F("slow", 1, (*G).fSlow), F("shared-close", 1, (*G).fSharedClose)}
	case "C02":
		return []flavour{F("big", 6, (*G).fBig), F("bad", 3, (*G).fBad), F("uint", 1, (*G).fUint), w(driver, 3), w(shared, 1), F("pool-big", 1, (*G).fPoolBig), w(routed, 1)}
	case "C03":
		return []flavour{F("net", 6, (*G).fNet), F("net-slow", 3, (*G).fNetSlow), F("net-pool", 2, (*G).fNetPool), F("net-tls", 1, (*G).fNetTLS), F("net-routed", 1, (*G).fNetRouted)}
	case "C04":
		return []flavour{F("tx", 4, (*G).fTx), F("tx-race", 2, (*G).fTxShared), F("tx-faults", 6, (*G).fTxFaults), F("tx-pool", 2, (*G).fTxPool), F("tx-shared", 1, (*G).fTxTwo), F("routed-dirty", 1, (*G).fRoutedDirty)}
	case "C05":
		return []flavour{F("ended", 6, (*G).fEnded), F("tx-race", 2, (*G).fTxShared), F("ended-faults", 3, (*G).fEndedFaults), F("tx-pool", 2, (*G).fTxPool), F("routed-dirty", 1, (*G).fRoutedDirty)}
	case "C06":
		return []flavour{F("fail", 6, (*G).fFail), F("fail-reset", 3, (*G).fFailReset), F("fail-pool", 2, (*G).fFailPool), w(shared, 1), F("fail-routed", 1, (*G).fFailRouted)}
	case "C07":
		return []flavour{F("broken", 6, (*G).fBroken), F("shared-close", 1, (*G).fSharedClose), w(driverF, 2), w(poolF, 3), F("broken-data", 2, (*G).fMangle), w(routedF, 1)}
	case "C08":
		return []flavour{F("silent", 6, (*G).fSilent), F("silent-connect", 4, (*G).fSilentConnect), F("silent-pool", 3, (*G).fSilentPool), F("silent-routed", 2, (*G).fSilentRouted)}
	case "C09":
		return []flavour{F("connect", 4, (*G).fConnect), F("shared-close", 2, (*G).fSharedClose), w(driverF, 4), w(poolF, 4), w(routedF, 3), F("pool-close", 3, (*G).fPoolClose), F("tls", 1, (*G).fTLS), F("mangle", 1, (*G).fMangle), F("routed-close", 2, (*G).fRoutedClose)}
	case "C10":
		return []flavour{w(pool, 4), w(poolF, 3), F("reclaim", 4, (*G).fReclaim), w(routed, 2), w(routedF, 2), F("routed-reclaim", 2, (*G).fRoutedReclaim), F("routed-held", 2, (*G).fRoutedHeld)}
	case "C11":
		return []flavour{F("dirty", 6, (*G).fDirty), F("unasked", 3, (*G).fUnasked), w(poolF, 4), F("routed-dirty", 2, (*G).fRoutedDirty), w(routedF, 1)}
	case "C12":
		return []flavour{F("contended", 4, (*G).fContended), w(poolF, 4), F("outage", 4, (*G).fOutage), F("reclaim", 2, (*G).fReclaim), F("pool-close", 1, (*G).fPoolClose), w(routedF, 3), F("routed-reclaim", 2, (*G).fRoutedReclaim), F("members", 2, (*G).fMembers), F("routed-dirty", 1, (*G).fRoutedDirty), F("routed-held", 1, (*G).fRoutedHeld)}
	case "C13":
		return []flavour{F("pool-close", 6, (*G).fPoolClose), F("routed-close", 5, (*G).fRoutedClose)}
	case "C14":
		return []flavour{F("topology", 8, (*G).fTopology), F("topology-dial", 4, (*G).fTopologyDial), F("topology-faults", 3, (*G).fTopologyFaults)}
	case "C15":
		return []flavour{w(routedF, 5), F("members", 5, (*G).fMembers), F("topology-faults", 2, (*G).fTopologyFaults), F("routed-reclaim", 1, (*G).fRoutedReclaim)}
	case "C16":
		return []flavour{w(shared, 4), F("shared-close", 4, (*G).fSharedClose), F("tx-race", 3, (*G).fTxShared), F("race-pool", 4, (*G).fRacePool), F("race-routed", 4, (*G).fRaceRouted), F("many", 2, (*G).fManyConns), F("pool-close", 2, (*G).fPoolClose), F("routed-close", 2, (*G).fRoutedClose), w(poolF, 1)}
	case "C17":
		return []flavour{F("mangle", 8, (*G).fMangle), F("mangle-pool", 2, (*G).fManglePool), F("counters", 3, (*G).fCounters), F("mangle-connect", 2, (*G).fMangleConnect), F("mangle-routed", 2, (*G).fMangleRouted), F("types", 2, (*G).fTypes), F("nested", 1, (*G).fNested)}
	case "C18":
		return []flavour{F("tls", 5, (*G).fTLS), F("creds", 5, (*G).fCreds), F("clients", 3, (*G).fClients), F("tls-pool", 3, (*G).fTLSPool), F("tls-routed", 4, (*G).fTLSRouted), F("creds-routed", 3, (*G).fCredsRouted)}
	case "C19":
		return []flavour{driver, w(driverF, 3), F("fail", 3, (*G).fFail), F("fail-reset", 2, (*G).fFailReset), F("handshake", 3, (*G).fHandshake), F("tx-faults", 2, (*G).fTxFaults), w(pool, 1), w(poolF, 2), w(routed, 1), F("ended", 1, (*G).fEnded), F("connect", 1, (*G).fConnect), F("clients", 1, (*G).fClients)}
	case "C22":
		return []flavour{F("config", 5, (*G).fConfig), F("clients", 4, (*G).fClients), F("config-pool", 3, (*G).fConfigPool), F("config-routed", 3, (*G).fConfigRouted), F("config-silent", 3, (*G).fConfigSilent), F("versions", 3, (*G).fVersions), F("wrong", 3, (*G).fWrong)}
	case "C21":
		return []flavour{F("temporal", 6, (*G).fTemporal), F("temporal-net", 3, (*G).fTemporalNet), F("temporal-faults", 2, (*G).fTemporalFaults), F("temporal-pool", 2, (*G).fTemporalPool), F("temporal-routed", 1, (*G).fTemporalRouted)}
	case "C20":
		return []flavour{F("db", 8, (*G).fDB), F("db-pool", 3, (*G).fDBPool), F("db-routed", 1, (*G).fDBRouted)}
	}
	panic("no such property: " + prop)
}

// ---- basics

func (g *G) pct(n int) bool { return g.Intn(100) < n }

func (g *G) base() {
	sc := g.sc
	cl := &sc.Client
	cl.Kind = "driver"
	cl.User, cl.Pass = "neo4j", fmt.Sprintf("pw%x", g.Uint64()%0xffffff)
	cl.Via = simrt.Pick(g.RNG, "opts", "opts", "url", "urlopt")
	cl.TimeoutMs = int64(simrt.Pick(g.RNG, 1, 2, 3, 5, 10)) * 1000
	if cl.Via == "opts" && g.pct(20) {
		cl.TimeoutMs = 500
	}
	if g.pct(10) {
		cl.TimeoutMs = 0
	}
	sc.Servers = []*world.ServerCfg{{Host: "db.sim", Port: 7687, Versions: g.versions(), DBs: []string{"movies", "books"}, ProcUs: simrt.Pick(g.RNG, 0, 10, 500, 3000)}}
	if g.pct(4) {
		sc.Servers[0].Host = "fd00::1"
	}
	sc.Servers[0].Chunk = simrt.Pick(g.RNG, "", "", "", "small", "rand", "page")
	sc.Net = world.NetCfg{LatMinUs: 50, LatMaxUs: simrt.Pick(g.RNG, 100, 1000, 20000), Seg: simrt.Pick(g.RNG, "", "", "mss", "rand"), NoCoal: g.pct(30)}
	g.schedule(false)
	sc.Epi = world.Epilogue{Heal: true, Check: true, ClosePool: true, AfterMs: 2000}
}

func (g *G) versions() []int {
	switch g.Intn(8) {
	case 0:
		return []int{1}
	case 1:
		return []int{2}
	case 2:
		return []int{3}
	case 3, 4:
		return []int{4}
	case 5:
		return []int{1, 2, 3}
	}
	return []int{1, 2, 3, 4}
}

func (g *G) schedule(hot bool) {
	s := &g.sc.Sched
	*s = simrt.Schedule{Seed: g.Uint64()}
	switch k := g.Intn(10); {
	case k < 1 && !hot:
		s.Strategy = "seq"
	case k < 4:
		s.Strategy = "pct"
		s.Depth = 1 + g.Intn(6)
	default:
		s.Strategy = "random"
		s.PStmt = simrt.Pick(g.RNG, 0.0005, 0.003, 0.01, 0.05)
		s.PSync = simrt.Pick(g.RNG, 0.05, 0.2, 0.5, 0.9)
		if hot {
			s.PStmt = simrt.Pick(g.RNG, 0.002, 0.02, 0.1, 0.3)
		}
	}
}

// stalls lets the scheduler stall tasks for a while; durations then mean nothing.
func (g *G) stalls() {
	if g.sc.Sched.Strategy == "random" {
		g.sc.Sched.PStall = simrt.Pick(g.RNG, 0.01, 0.05)
		g.sc.Sched.StallMax = int64(simrt.Pick(g.RNG, 5, 50, 400))
		g.sc.NoTiming = true
	}
}

// timeout is the shortest timeout of a client.
func (g *G) timeout() int {
	t := g.sc.Client.Timeout()
	for _, o := range g.sc.Others {
		if o.Timeout() < t {
			t = o.Timeout()
		}
	}
	return int(t)
}

func (g *G) pool(size int) {
	g.sc.Client.Kind = "pool"
	g.sc.Client.Size = size
	if g.pct(3) {
		g.sc.Client.Size = -1
	}
	g.sc.Epi.Drain = true
}

func (g *G) hostName(i int) string {
	return fmt.Sprintf(simrt.Pick(g.RNG, "core%d.sim", "core%d.sim", "core%d.sim", "core%d.sim", "neobolt%d.sim", "neobolt%d.sim", "fd00::%d"), i)
}

// routed makes a cluster of n members.
func (g *G) routed(n, size int) {
	sc := g.sc
	sc.Client.Kind = "routed"
	sc.Client.Size = size
	if sc.Client.TimeoutMs == 0 {
		sc.Client.TimeoutMs = 5000
	}
	var ss []*world.ServerCfg
	vs := g.versions()
	mixed := g.pct(15)
	for i := 0; i < n; i++ {
		c := &world.ServerCfg{Host: g.hostName(i + 1), Port: simrt.Pick(g.RNG, 7687, 7687, 7690+i), Versions: vs, DBs: []string{"movies", "books"}, ProcUs: sc.Servers[0].ProcUs, Chunk: sc.Servers[0].Chunk, Role: "follower"}
		if mixed {
			c.Versions = g.versions()
		}
		if i > 1 && g.pct(35) {
			c.Role = "read_replica"
		}
		ss = append(ss, c)
	}
	ss[0].Role = "leader"
	if n > 1 && g.pct(25) { // the configured server is not the leader
		ss[0].Role, ss[1].Role = "follower", "leader"
		if n < 3 {
			ss[0].Role = "follower"
		}
	}
	sc.Servers = ss
	sc.Epi.WaitMs = 120000 + 20000 + 4*sc.Client.TimeoutMs + 5000 + int64(g.Intn(60000))
	sc.Epi.Drain = true
	sc.Epi.AfterMs = 300000
}

func (g *G) finish() {
	sc := g.sc
	if sc.Client.Via == "url" && sc.Client.TimeoutMs%1000 != 0 && sc.Client.Split>>4&1 == 0 {
		sc.Client.TimeoutMs = 1000
	}
	if sc.Horizon == 0 {
		sc.Horizon = 20000000
	}
	if sc.Net.GapMs > 0 { // every piece may come late
		for _, t := range sc.Tasks {
			for _, o := range t.Ops {
				if o.Spec != nil && o.Spec.Rows > 400 {
					o.Spec.Rows = 400
					if o.Spec.FailAt > 400 {
						o.Spec.FailAt = 400
					}
				}
			}
		}
	}
	g.temporals()
	if g.big == 0 && sc.MemMax == 0 && g.pct(3) {
		sc.Client.Log = simrt.Pick(g.RNG, "error", "info", "trace", "trace")
	}
	for i, f := range sc.Faults {
		if f.N == 0 && f.On != "" {
			sc.Faults[i].N = 1
		}
	}
}

func (g *G) task(name string, startMs int, ops ...*world.Op) *world.TaskCfg {
	t := &world.TaskCfg{Name: name, StartMs: int64(startMs), Ops: ops}
	g.sc.Tasks = append(g.sc.Tasks, t)
	return t
}

func (g *G) newSlot() int { g.slot++; return g.slot }
func (g *G) newTx() int   { g.tx++; return g.tx }

func (g *G) mode() string {
	if g.wmode != "" {
		return g.wmode
	}
	return simrt.Pick(g.RNG, "w", "w", "r")
}

func (g *G) open(c int) *world.Op {
	o := &world.Op{Op: "open", C: c, Mode: g.mode()}
	if g.probe && g.sc.Client.Kind != "driver" {
		o.N = 1
	}
	return o
}

func (g *G) spec() *world.Spec {
	g.tag++
	sp := &world.Spec{Tag: g.tag, Seed: g.Uint64(), Exec: g.pct(35), Write: g.pct(40), NPar: g.Intn(5), Rows: g.Intn(7), Cols: 1 + g.Intn(4), Stats: 0}
	if g.sc.Client.Kind == "routed" {
		sp.Write = false
	}
	if g.pct(60) {
		sp.Stats = 1 + g.Intn(63)
	}
	if g.pct(25) {
		sp.Sz = 1
	}
	if g.pct(25) {
		sp.RSz = 1
	}
	if g.big > 0 && g.pct(50) {
		sp.Sz, sp.RSz = g.big, g.big
	}
	if g.pct(4) {
		sp.Rows = 60 + g.Intn(300)
		if g.pct(5) {
			sp.Rows, sp.Cols, sp.RSz = 1000+g.Intn(5000), 1, 0
		}
	}
	if g.pct(5) {
		sp.Txt = g.Intn(3000)
	}
	if !g.noFail && g.Chance(g.failp) {
		sp.Fail = simrt.Pick(g.RNG, "run", "pull")
		sp.FailAt = g.Intn(sp.Rows + 1)
	}
	if !g.noBad && g.pct(4) {
		sp.Bad = true
	}
	if g.pct(3) && g.timeout() >= 1000 {
		sp.SlowMs = 1 + g.Intn(g.timeout()/5)
	}
	return sp
}

func (g *G) clean() *world.Spec {
	sp := g.spec()
	sp.Fail, sp.FailAt, sp.Bad, sp.Write = "", 0, false, false
	return sp
}

func (g *G) db(o *world.Op) *world.Op {
	if g.noDB || !g.Chance(g.dbp) {
		return o
	}
	o.DB = simrt.Pick(g.RNG, "movies", "books", "neo4j", "nosuch", "")
	o.WDB = true
	return o
}

func (g *G) q(c int) *world.Op {
	return g.db(&world.Op{Op: "q", C: c, Spec: g.spec()})
}

// txBlock is a transaction on connection c, ended in one of several ways.
func (g *G) txBlock(c int) (all []*world.Op) {
	t := g.newTx()
	b := g.db(&world.Op{Op: "begin", C: c, T: t})
	ops := []*world.Op{b}
	for n := g.Intn(4); n > 0; n-- {
		o := &world.Op{Op: "tq", C: c, T: t, Spec: g.spec()}
		if !g.noDB && g.Chance(g.dbp) {
			o.WDB = true
			o.DB = simrt.Pick(g.RNG, b.DB, b.DB, "movies", "books")
		}
		ops = append(ops, o)
	}
	if g.pct(6) { // a second one is refused and leaves this one as it is
		o := &world.Op{Op: "begin", C: c, T: g.newTx()}
		defer func() { all = append(all, &world.Op{Op: "rollback", C: c, T: o.T}) }()
		at := 1 + g.Intn(len(ops))
		ops = append(ops[:at], append([]*world.Op{o}, ops[at:]...)...)
	}
	switch g.Intn(10) {
	case 0, 1, 2, 3, 4:
		ops = append(ops, &world.Op{Op: "commit", C: c, T: t})
	case 5, 6, 7:
		ops = append(ops, &world.Op{Op: "rollback", C: c, T: t})
	default:
		ops = append(ops, &world.Op{Op: "rollback", C: c, T: t})
		ops = append(ops, &world.Op{Op: simrt.Pick(g.RNG, "commit", "rollback", "isclosed"), C: c, T: t})
	}
	if g.pct(20) {
		ops = append(ops, &world.Op{Op: "isclosed", C: c, T: t})
	}
	if g.pct(15) {
		ops = append(ops, &world.Op{Op: "tq", C: c, T: t, Spec: g.spec()})
	}
	return ops
}

// leaveTx is a transaction that is left open.
func (g *G) leaveTx(c int) ([]*world.Op, int) {
	t := g.newTx()
	b := &world.Op{Op: "begin", C: c, T: t}
	if !g.noDB && g.pct(30) {
		b.DB, b.WDB = simrt.Pick(g.RNG, "movies", "books", "neo4j"), true
	}
	ops := []*world.Op{b}
	for n := g.Intn(3); n > 0; n-- {
		ops = append(ops, &world.Op{Op: "tq", C: c, T: t, Spec: g.clean()})
	}
	return ops, t
}

// work is n pieces of work on an open connection.
func (g *G) work(c, n int) []*world.Op {
	var ops []*world.Op
	for ; n > 0; n-- {
		switch k := g.Intn(20); {
		case k < 10 || g.noTx && k < 17:
			ops = append(ops, g.q(c))
		case k < 17:
			ops = append(ops, g.txBlock(c)...)
		case k < 18:
			ops = append(ops, &world.Op{Op: "validate", C: c})
		case k < 19:
			ops = append(ops, &world.Op{Op: "sleep", Ms: int64(simrt.Pick(g.RNG, 1, 20, 500, 5000))})
		default:
			ops = append(ops, &world.Op{Op: "idle", C: c})
		}
	}
	return ops
}

// driverTask opens a connection, works and closes it (or leaves that to the end).
func (g *G) driverTask(name string, n int) *world.TaskCfg {
	c := g.newSlot()
	t := g.task(name, g.Intn(30), g.open(c))
	if g.pct(15) && !g.sc.Client.TLS {
		t.Ops = append(t.Ops, &world.Op{Op: "chunk", C: c, N: simrt.Pick(g.RNG, 1, 2, 7, 50, 255, 256, 1000, 65535)})
	}
	t.Ops = append(t.Ops, g.work(c, n)...)
	if !g.noTx && g.pct(15) { // Close has to roll back
		l, _ := g.leaveTx(c)
		t.Ops = append(t.Ops, l...)
	}
	if g.pct(60) {
		t.Ops = append(t.Ops, &world.Op{Op: "close", C: c})
		if g.pct(25) {
			t.Ops = append(t.Ops, simrt.Pick(g.RNG, &world.Op{Op: "close", C: c}, g.q(c), &world.Op{Op: "validate", C: c}, &world.Op{Op: "begin", C: c, T: g.newTx()}))
		}
		if g.pct(40) {
			c2 := g.newSlot()
			t.Ops = append(t.Ops, g.open(c2))
			t.Ops = append(t.Ops, g.work(c2, 1+g.Intn(2))...)
		}
	}
	return t
}

// give ends a borrow.
func (g *G) give(c int) []*world.Op {
	var ops []*world.Op
	switch g.Intn(12) {
	case 0:
		ops = append(ops, &world.Op{Op: "close", C: c})
	case 1:
		ops = append(ops, &world.Op{Op: "idle", C: c})
	}
	if g.pct(8) {
		ops = append(ops, g.settings(c, false))
	}
	return append(ops, &world.Op{Op: "reclaim", C: c})
}

// settings is a borrower changing what the next one must not notice.
func (g *G) settings(c int, busy bool) *world.Op {
	if g.pct(30) && !g.sc.Client.TLS {
		return &world.Op{Op: "chunk", C: c, N: simrt.Pick(g.RNG, 1, 50, 1000, 65535)}
	}
	ms := simrt.Pick(g.RNG, 1, 10, 3600000)
	if busy {
		ms = 3600000
	}
	return &world.Op{Op: "settimeout", C: c, Ms: int64(ms)}
}

// borrow is one borrow cycle.
func (g *G) borrow(n int) []*world.Op {
	c := g.newSlot()
	ops := []*world.Op{g.open(c)}
	ops = append(ops, g.work(c, n)...)
	return append(ops, g.give(c)...)
}

func (g *G) poolTasks(n, cycles, work int) {
	for i := 0; i < n; i++ {
		t := g.task(fmt.Sprintf("b%d", i), g.Intn(50))
		for k := 1 + g.Intn(cycles); k > 0; k-- {
			t.Ops = append(t.Ops, g.borrow(1+g.Intn(work))...)
			if g.pct(30) {
				t.Ops = append(t.Ops, &world.Op{Op: "sleep", Ms: int64(simrt.Pick(g.RNG, 1, 10, 200, 4000))})
			}
		}
	}
}

var events = []string{"hello", "run", "run", "pull", "pull", "begin", "commit", "commit", "rollback", "reset", "goodbye", "hs", "accept", "any", "any"}
var phases = []string{"before", "after", "mid", "mid"}

// connFault breaks one connection.
func (g *G) connFault(evs ...string) *world.Fault {
	if len(evs) == 0 {
		evs = events
	}
	f := &world.Fault{On: simrt.Pick(g.RNG, evs...), Srv: -1, Phase: simrt.Pick(g.RNG, phases...), Act: simrt.Pick(g.RNG, "reset", "reset", "fin", "fin", "stall", "hole"), Arg: int64(g.Uint64() >> 2)}
	f.N = 1 + g.Intn(simrt.Pick(g.RNG, 1, 3, 8))
	if f.On == "any" {
		f.N = 1 + g.Intn(25)
	}
	if g.pct(7) {
		f.On, f.Phase = simrt.Pick(g.RNG, "write", "write", "wgoodbye"), ""
		if f.Act = "sever"; f.On == "write" {
			f.N = 1 + g.Intn(simrt.Pick(g.RNG, 12, 60, 200))
		}
	}
	if (f.Act == "stall" || f.Act == "hole") && g.pct(40) {
		f.DurMs = int64(1 + g.Intn(3*g.timeout()))
	}
	g.sc.Faults = append(g.sc.Faults, f)
	return f
}

// smallBuf lets writes block: the send buffer holds little and the peer may stop reading.
func (g *G) smallBuf() {
	if !g.pct(35) {
		return
	}
	g.sc.Net.SndBuf = simrt.Pick(g.RNG, 64, 500, 4000)
	for _, f := range g.sc.Faults {
		if f.On != "" && (f.Act == "stall" || f.Act == "hole" || f.Act == "fin") && g.pct(60) {
			f.Act = "noread"
		}
	}
}

// serverFault hits a whole server, at a time or on an event.
func (g *G) serverFault(srv int, maxAtMs int) *world.Fault {
	f := &world.Fault{Srv: srv, Act: simrt.Pick(g.RNG, "crash", "crash", "refuse", "srvstall", "srvhole", "authfail"), Arg: int64(g.Intn(4)), DurMs: int64(1 + g.Intn(simrt.Pick(g.RNG, 200, 5000, 60000)))}
	if g.pct(60) {
		f.AtMs = int64(g.Intn(maxAtMs + 1))
	} else {
		f.On = simrt.Pick(g.RNG, "run", "pull", "begin", "commit", "hello", "dial", "hs", "any")
		f.N = 1 + g.Intn(6)
		f.Phase = simrt.Pick(g.RNG, "before", "after", "mid")
	}
	g.sc.Faults = append(g.sc.Faults, f)
	return f
}

// failFault makes the server fail one request.
func (g *G) failFault(evs ...string) *world.Fault {
	f := &world.Fault{On: simrt.Pick(g.RNG, evs...), N: 1 + g.Intn(3), Srv: -1, Act: "fail", Arg: int64(g.Intn(10000))}
	if g.pct(40) {
		f.Phase = "late"
	}
	g.sc.Faults = append(g.sc.Faults, f)
	return f
}
