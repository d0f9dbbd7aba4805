package runner

import (
	"fmt"
	"strings"
	"time"

	"verif.local/sim/simrt"
	"verif.local/sim/world"
)

// epilogue is the last client task: faults stop, and everything the scenario
// left behind is used once more and then given back.
func (r *Run) epilogue() {
	defer func() { r.done = true }()
	r.epi = true
	r.s.Observe(&r.fin)
	e := &r.sc.Epi
	if e.Heal {
		r.w.HealAll()
	}
	if e.WaitMs > 0 {
		r.s.Sleep(time.Duration(e.WaitMs) * time.Millisecond)
	}
	if r.drv == nil && r.pool == nil {
		r.s.Sleep(time.Second)
		return
	}
	if e.Check {
		for _, s := range append([]*slot(nil), r.all...) {
			if s.gone || s.closed || s.dead {
				continue
			}
			for _, t := range s.txs {
				if t.foggy && t.ended == "" {
					r.foggy(-2, 0, t)
				}
				if t.ended == "" && !r.aborted {
					r.endTx(-2, 0, &world.Op{Op: "rollback", C: s.id, T: t.id}, t)
				}
			}
			if r.aborted {
				return
			}
			if !s.dead {
				r.probe(-2, 0, s, "final")
			}
			if r.aborted {
				return
			}
		}
	}
	early := e.ClosePool && !e.Drain && r.pool != nil && r.sc.Seed%3 == 0
	if early && !r.closeOK {
		r.poolClose(-2, 0, &world.Op{Op: "poolclose"})
	}
	for i, s := range append([]*slot(nil), r.all...) {
		if r.aborted {
			return
		}
		if r.pool != nil {
			if !s.goneCall {
				r.reclaim(-2, i, &world.Op{Op: "reclaim", C: s.id}, s)
			}
		} else if !s.closed {
			r.closeConn(-2, i, &world.Op{Op: "close", C: s.id}, s)
		}
	}
	if r.aborted {
		return
	}
	r.s.Sleep(time.Second)
	if r.pool != nil {
		r.leftOpen()
	}
	if e.Drain && r.pool != nil && !r.closing && !r.aborted {
		r.drain()
	}
	if r.aborted {
		return
	}
	if e.ClosePool && r.pool != nil && !early && !r.closeOK {
		r.poolClose(-2, 1, &world.Op{Op: "poolclose"})
	}
	if r.pool != nil && r.closing && !r.aborted {
		// a second Close must fail and do no harm; Open must fail
		r.poolClose(-2, 2, &world.Op{Op: "poolclose"})
		if r.closeOK && !r.aborted {
			for k, m := range []string{"w", "r"} {
				o := &world.Op{Op: "open", C: 70000 + k, Mode: m}
				r.open(-2, 3, o)
				if s := r.slots[o.C]; s != nil && s.conn != nil && !r.aborted {
					r.reclaim(-2, 4, &world.Op{Op: "reclaim", C: o.C}, s)
				}
			}
		}
	}
	if e.AfterMs > 0 && !r.aborted {
		r.s.Sleep(time.Duration(e.AfterMs) * time.Millisecond)
	}
}

// leftOpen: no transaction of a borrower that gave its connection back is alive.
func (r *Run) leftOpen() {
	for _, t := range r.allTx {
		if t.srv == nil || !t.s.gone || t.srv.State != "open" && t.srv.State != "failed" {
			continue
		}
		c := t.srv.Conn()
		if c.Taint != "" || !c.Srv.Healthy() || c.Closed {
			continue
		}
		r.violate("unclean", "connection %d was given back, but the transaction its borrower left open is still alive on the server", c.ID)
	}
}

// drain borrows the full configured number of connections at the same time.
func (r *Run) drain() {
	var modes []string
	if r.sc.Client.Kind == "routed" {
		for i := 0; i < r.limit("w"); i++ {
			modes = append(modes, "w")
		}
		for i := 0; i < r.limit("r"); i++ {
			modes = append(modes, "r")
		}
	} else {
		for i := 0; i < r.limit("") && (i < 12 || r.sc.Client.Size > 0); i++ {
			modes = append(modes, simrt.Pick(simrt.NewRNG(r.sc.Seed+uint64(i)), "r", "w"))
		}
	}
	opened := 0
	var ts []*simrt.Task
	for i, m := range modes {
		i, m := i, m
		r.s.Publish(&r.fin)
		ts = append(ts, r.s.Spawn(fmt.Sprintf("drain%d", i), func() {
			r.s.Observe(&r.fin)
			defer r.s.Publish(&r.fin)
			o := &world.Op{Op: "open", C: 80000 + i, Mode: m}
			r.open(-3, i, o)
			opened++
			s := r.slots[o.C]
			if s.conn == nil || r.aborted {
				return
			}
			r.s.Block("drain barrier", func() bool { return opened == len(modes) || r.aborted }, -1)
			if r.aborted {
				return
			}
			r.probe(-3, i, s, "drain")
			if r.aborted {
				return
			}
			r.reclaim(-3, i, &world.Op{Op: "reclaim", C: o.C}, s)
		}))
	}
	lim := 60*time.Second + 20*time.Duration(r.sc.Client.Timeout())*time.Millisecond
	ok := r.s.Block("drain", func() bool {
		for _, t := range ts {
			if !t.Done() {
				return r.aborted
			}
		}
		return true
	}, r.now()+lim)
	r.s.Observe(&r.fin)
	if !ok && !r.aborted {
		for _, op := range r.ops {
			if !op.Returned && op.Op.Op == "open" {
				r.violate("capacity", "with the server healthy again, only %d of %d connections could be borrowed at once: Open has not returned after %v", opened, len(modes), r.now()-op.Start)
				r.aborted = true
				return
			}
		}
		r.aborted = true
		r.stuck()
		return
	}
	if ok {
		r.s.Probe("drained-full-pool")
	}
}

// stuck names the calls that have not returned.
func (r *Run) stuck() {
	for _, op := range r.ops {
		if op.Returned {
			continue
		}
		s, _ := op.Data.(*slot)
		if t, _ := r.tainted(s, op); t != "" && r.duration(op, false) {
			continue
		}
		if op.Op.Op == "open" && r.pool != nil && len(op.Touched) == 0 {
			k := r.modeKey(op.Op.Mode)
			if r.used[k] >= r.limit(k) && !r.closing {
				continue // nobody gives a connection back: waiting is right
			}
			if r.closing {
				r.violate("capacity", "Open is still waiting although the pool has been closed")
				continue
			}
			r.violate("capacity", "Open never returns although only %d of %d connections are borrowed", r.used[k], r.limit(k))
			continue
		}
		r.violate("hang", "%s never returns (called at %v, still running at %v)", op.Op.Op, op.Start, r.now())
	}
}

// judge is called once, when the run is over.
func (r *Run) judge(out simrt.Outcome) {
	for _, p := range r.s.Panics {
		who := "a call"
		if p.Lib {
			who = "a background task of the library"
		}
		if strings.HasPrefix(p.Value, "harness") {
			r.violate("harness", "%s\n%s", p.Value, p.Stack)
			continue
		}
		if !p.Lib && !strings.Contains(p.Stack, "go-bolt/") && !strings.Contains(p.Stack, "/repo/") {
			r.violate("harness", "%s\n%s", p.Value, p.Stack)
			continue
		}
		r.violate("panic", "%s panicked (%s): %s\n%s", who, p.Task, p.Value, trimStack(p.Stack))
	}
	if len(r.s.Panics) > 0 {
		return
	}
	switch out {
	case simrt.OutLivelock:
		r.violate("hang", "the library loops without making progress (%s)", r.where())
		return
	case simrt.OutHorizon, simrt.OutStuck:
		if !r.aborted {
			n := len(r.w.Violations)
			r.stuck()
			if len(r.w.Violations) == n {
				r.violate("harness", "the simulated time ran out with nothing to show for it: %s", r.where())
			}
		}
		return
	}
	if r.aborted {
		return
	}
	r.atomicity()
	for tag, ex := range r.w.ByTag {
		if len(ex) > 1 {
			r.violate("not-exactly-once", "statement %d was executed %d times", tag, len(ex))
		}
	}
	r.failstop()
	for _, c := range r.goodbye {
		if !c.SaidGoodbye() && c.Taint == "" && !c.UnderWay() {
			r.violate("proto", "connection %d (Bolt v%d) was closed while healthy without GOODBYE", c.ID, c.Version())
		}
	}
	r.sizes()
	r.leaks()
	if !simrt.RaceBuild { // a caller would not read another goroutine's results
		r.recheck(-1)
	}
}

func (r *Run) where() string {
	var w []string
	for _, t := range r.s.Tasks() {
		if !t.Done() {
			w = append(w, t.Name+" "+t.StateString())
		}
	}
	return strings.Join(w, "; ")
}

func (r *Run) atomicity() {
	inTx := map[int]bool{}
	for _, t := range r.allTx {
		bad := t.srv == nil || t.srv.Conn().BadData
		for _, tag := range t.tags {
			inTx[tag] = true
		}
		if bad {
			continue
		}
		n := 0
		for _, tag := range t.okTags {
			a := r.w.Applied[tag]
			if a > 0 {
				n++
			}
		}
		applied := 0
		for _, tag := range t.tags {
			applied += r.w.Applied[tag]
		}
		switch {
		case t.how == "commit":
			if n != len(t.okTags) {
				r.violate("atomicity", "Commit returned nil but only %d of the transaction's %d statements are applied", n, len(t.okTags))
			}
		case t.how == "rollback":
			if applied != 0 {
				r.violate("atomicity", "Rollback returned nil but %d of the transaction's statements are applied", applied)
			}
		case t.commit:
			if n != 0 && n != len(t.okTags) {
				r.violate("atomicity", "Commit failed and %d of the transaction's %d statements are applied", n, len(t.okTags))
			}
		default:
			if applied != 0 {
				r.violate("atomicity", "%d statements of a transaction that was never committed (%s) are applied", applied, t.ended)
			}
		}
	}
	for tag, n := range r.w.Applied {
		if n > 1 {
			r.violate("not-exactly-once", "statement %d was applied %d times", tag, n)
		}
	}
	for _, tag := range r.okAuto {
		if r.w.Applied[tag] != 1 {
			r.violate("not-exactly-once", "statement %d returned success but is applied %d times", tag, r.w.Applied[tag])
		}
	}
}

// failstop: nothing was executed through a connection after it failed.
func (r *Run) failstop() {
	for _, s := range r.all {
		if !s.dead || s.sock == nil {
			continue
		}
		for _, ex := range r.w.Execs {
			is := r.w.Issued[ex.Tag]
			if ex.Conn != s.sock || is == nil {
				continue
			}
			op, _ := is.Op.(*world.OpRun)
			if op != nil && op.ID > s.deadOp && op.Idx >= 0 && op.Data == interface{}(s) && ex.At > s.deadAt {
				r.violate("failstop", "statement %d was executed on connection %d after that connection had failed (%s)", ex.Tag, s.sock.ID, s.deadWhy)
			}
		}
		if r.pool != nil && s.goneCall {
			for _, o := range r.all {
				if o != s && o.sock == s.sock && o.open.Start > s.deadAt {
					r.violate("failstop", "the pool handed out connection %d again after it had failed (%s)", s.sock.ID, s.deadWhy)
				}
			}
		}
	}
}

func (r *Run) sizes() {
	if r.pool == nil {
		return
	}
	lim := r.sc.Client.Size
	if r.sc.Client.Kind == "routed" {
		lim++
	}
	if r.w.MaxOpen > lim && lim > 0 {
		r.violate("over-cap", "%d connections were open at once although the pool's size is %d", r.w.MaxOpen, r.sc.Client.Size)
	}
}

func (r *Run) leaks() {
	open := r.w.OpenConns()
	if len(open) == 0 {
		return
	}
	if r.drv == nil && r.pool == nil {
		r.violate("leak", "creating the client failed and left %d connections open", len(open))
		return
	}
	if r.pool != nil && !r.closing || !r.done {
		return
	}
	for _, c := range open {
		if r.pool != nil && r.drv == nil && r.closing {
			r.violate("pool-leak", "connection %d to %s is still open although the pool is closed and everything has been given back", c.ID, c.Addr)
		} else {
			r.violate("leak", "connection %d to %s is still open although everything has been closed", c.ID, c.Addr)
		}
	}
}
