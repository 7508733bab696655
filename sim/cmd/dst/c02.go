package main

import (
	"errors"

	sqlnet "github.com/cybergarage/go-sqlparser/sql/net"
	"verif.local/sim/simrt"
)

type shutRec struct {
	c         int
	call, ret int64
	err       error
	snapCall  int64
	snapRet   int64
	snap      uint64
	snapBad   string
	kind      string
	a, b      int
	errS      string
}

func init() {
	register(&Prop{
		ID: "C02", Quick: 200000, Thorough: 1000000, MaxSteps: 6000000,
		Rule: "registry with 2-6 (now and then up to 60, in one client also up to 300) connections; clients shut it down (Close/Stop), close, add, replace and remove connections at the same time while transport closes fail or stall; then faults stop and a last shutdown must empty it",
		Real: "sql/net connection registry and connections", Stub: "net.Conn transport with failing and slow Close",
		Gen: func(r *simrt.Rng) *Plan {
			pl := &Plan{Setup: genPoolSetup(r)}
			for i := range pl.Setup {
				// mostly distinct IDs: full registries
				if r.Bool(600) {
					pl.Setup[i].I[0] = 10 + i
				}
			}
			conns := pl.Setup
			pl.Rate = []int{0, 80, 250, 450}[r.Intn(4)]
			pl.MapSeed = r.U64()
			for i := range conns {
				if r.Bool(800) {
					pl.Setup = append(pl.Setup, Op{K: "add", I: []int{i}})
				}
			}
			if r.Bool(12) {
				k := 61 + r.Intn(80)
				if r.Bool(300) {
					k = 120 + r.Intn(180)
				}
				pl.Rate = []int{0, 20, 80, 250}[r.Intn(4)]
				pl.Clients = [][]Op{{{K: "mass", I: []int{k, r.Intn(2)}}}}
				pl.Est = int64(k * 40)
				return pl
			}
			nc := 1 + r.Intn(3)
			total := 0
			shut := 0
			for c := 0; c < nc; c++ {
				var ops []Op
				k := 1 + r.Intn(5)
				for j := 0; j < k; j++ {
					switch {
					case r.Bool(380) || (c == nc-1 && j == k-1 && shut == 0):
						ops = append(ops, Op{K: []string{"close", "stop"}[r.Intn(2)]})
						shut++
					case r.Bool(150):
						ops = append(ops, Op{K: "connclose", I: []int{r.Intn(len(conns))}})
					default:
						ops = append(ops, genRegOp(r, conns))
					}
					total++
				}
				pl.Clients = append(pl.Clients, ops)
			}
			pl.Est = int64(total * 40)
			return pl
		},
		Build: buildC02,
	})
}

func buildC02(e *Env) func() {
	pool := buildPool(e.P.Setup)
	n := len(pool.conns)
	m := sqlnet.NewConnManager()
	recs := make([][]shutRec, len(e.P.Clients)+1)
	valid := func(op Op) bool {
		switch op.K {
		case "update":
			return op.i(0) < n && op.i(1) < n
		case "add", "remove", "rmuuid", "lookuuid", "connclose":
			return op.i(0) < n
		}
		return true
	}
	t := int64(-1000)
	for _, o := range e.P.Setup {
		if o.K == "add" && valid(o) {
			out := pool.apply(m, rIn{o.K, o.i(0), 0})
			recs[len(e.P.Clients)] = append(recs[len(e.P.Clients)], shutRec{c: -1, call: t, ret: t + 1, kind: "add", a: o.i(0), errS: out.err})
			t += 2
		}
	}
	for c := range e.P.Clients {
		e.S.Spawn(func() {
			for _, op := range e.P.Clients[c] {
				if !valid(op) {
					continue
				}
				r := shutRec{c: c, kind: op.K, a: op.i(0), b: op.i(1), call: simrt.Seq()}
				switch op.K {
				case "mass":
					massShutdown(e, c, op)
					continue
				case "close", "stop":
					simrt.Y(32)
					if op.K == "close" {
						r.err = m.Close()
					} else {
						r.err = m.Stop()
					}
					r.ret = simrt.Seq()
					r.snapCall = r.ret
					o := pool.apply(m, rIn{k: "conns"})
					r.snap, r.snapBad = o.set, o.bad
					r.snapRet = simrt.Seq()
					e.Logf(c, "%s %v %x", op.K, r.err, r.snap)
				case "connclose":
					r.err = pool.conns[op.i(0)].Close()
					r.ret = simrt.Seq()
					e.Logf(c, "connclose %d %v", op.i(0), r.err)
				default:
					o := pool.apply(m, rIn{op.K, op.i(0), op.i(1)})
					r.errS = o.err
					r.ret = simrt.Seq()
					e.Logf(c, "%s %v %v", op.K, op.I, o)
				}
				recs[c] = append(recs[c], r)
				simrt.Y(33)
			}
		})
	}
	return func() {
		var all []shutRec
		for _, rs := range recs {
			all = append(all, rs...)
		}
		// touches reports whether an explicit operation may (un)register x
		touches := func(r *shutRec, x int) bool {
			switch r.kind {
			case "remove":
				return pool.uid[r.a] == pool.uid[x] || pool.ids[r.a] == pool.ids[x]
			case "rmid":
				return pool.ids[x] == uint64(r.a)
			case "rmuuid":
				return pool.uid[x] == pool.uid[r.a]
			case "update":
				return r.a == x || r.b == x
			case "add":
				return r.a == x
			}
			return false
		}
		// entered: the operation that put x in
		regd := func(r *shutRec, x int) bool {
			return r.errS == "" && (r.kind == "add" && r.a == x || r.kind == "update" && r.b == x)
		}
		// stable: x was registered by something that returned before `from`, and nothing explicit
		// that could move x in or out started between that and `to`.
		stable := func(x int, from, to int64) bool {
			var last *shutRec
			for i := range all {
				r := &all[i]
				if regd(r, x) && r.ret < from && (last == nil || r.ret > last.ret) {
					last = r
				}
			}
			if last == nil {
				return false
			}
			for i := range all {
				r := &all[i]
				if r != last && touches(r, x) && r.ret > last.call && r.call < to {
					return false
				}
			}
			// other shutdowns between may have taken it out (after closing it): handled by callers
			return true
		}
		closedBy := func(x int, seq int64) bool { return pool.tr[x].closed && pool.tr[x].closeSeq < seq }
		isShut := func(r *shutRec) bool { return r.kind == "close" || r.kind == "stop" }
		for i := range all {
			r := &all[i]
			if !isShut(r) {
				continue
			}
			simFail := 0
			for x := 0; x < n; x++ {
				attempted, failed := false, false
				for _, a := range pool.tr[x].att {
					if a.owner != r.c || a.start < r.call || a.start > r.ret {
						continue
					}
					attempted = true
					if a.err != nil && !a.again {
						failed = true
						simFail++
						if r.err == nil || !errors.Is(r.err, a.err) {
							e.Failf("lost-error", "shutdown by client %d returned %v but closing connection #%d failed with %v", r.c, r.err, x, a.err)
						}
					}
				}
				if stable(x, r.call, r.ret) && !attempted && !closedBy(x, r.ret) {
					// another shutdown that started earlier may have handled it in between only by closing it
					e.Failf("not-attempted", "connection #%d was registered during the whole shutdown [%d,%d] of client %d but its transport was neither closed nor attempted (returned %v)", x, r.call, r.ret, r.c, r.err)
				}
				if stable(x, r.call, r.snapRet) {
					in := r.snap&(1<<x) != 0
					if closedBy(x, r.ret) && in && !failed {
						// closed, and closed before this shutdown ended: own close reported success
						e.Failf("left-registered", "connection #%d is closed, shutdown by client %d closed it without error, but it is still registered", x, r.c)
					}
					if !in && !closedBy(x, r.snapRet) {
						e.Failf("dropped-unclosed", "connection #%d is no longer registered after the shutdown of client %d although its transport is not closed", x, r.c)
					}
				}
			}
			for x := 0; x < n && simFail == 0; x++ {
				for _, a := range pool.tr[x].att {
					if a.err != nil && a.end > r.call && a.end < r.ret && errors.Is(r.err, a.err) {
						simFail++
					}
				}
			}
			if r.err != nil && simFail == 0 {
				e.Failf("spurious-error", "shutdown by client %d returned %v although none of its closes failed", r.c, r.err)
			}
			if r.snapBad != "" {
				e.Failf("listing", "%s", r.snapBad)
			}
		}
		// D3 at the end: gone without an explicit removal and not closed
		o := pool.apply(m, rIn{k: "conns"})
		for x := 0; x < n; x++ {
			if o.set&(1<<x) == 0 && stable(x, 1<<39, 1<<40) && !pool.tr[x].closed {
				e.Failf("dropped-unclosed", "connection #%d was registered, never removed or replaced, is not closed, but is not registered at the end", x)
			}
			for _, a := range pool.tr[x].att {
				if a.again {
					e.Failf("double-close", "transport of connection #%d was closed again after it had been closed", x)
				}
			}
		}
		// recovery: faults are off now
		reg := o.set
		if err := m.Close(); err != nil {
			e.Failf("recovery", "shutdown with healthy transports returned %v", err)
		}
		if left := pool.apply(m, rIn{k: "conns"}); left.set != 0 || left.bad != "" {
			e.Failf("recovery", "after a shutdown with healthy transports still registered: %b %s", left.set, left.bad)
		}
		for x := 0; x < n; x++ {
			if reg&(1<<x) != 0 && !pool.tr[x].closed {
				e.Failf("recovery", "connection #%d not closed by the last shutdown", x)
			}
			for _, k := range []rIn{{"lookid", int(pool.ids[x]), 0}, {"lookuuid", x, 0}} {
				if g := pool.apply(m, k); g.c != -1 {
					e.Failf("recovery", "connection #%d still found by %s after the last shutdown", g.c, k.k)
				}
			}
		}
	}
}

// massShutdown shuts a registry of very many connections down.
func massShutdown(e *Env, c int, op Op) {
	m := sqlnet.NewConnManager()
	var trs []*tconn
	var cs []sqlnet.Conn
	for i := 0; i < op.i(0); i++ {
		t := newTConn(1000 + i)
		trs = append(trs, t)
		cs = append(cs, sqlnet.NewConnWith(t, sqlnet.WithConnID(sqlnet.ConnID(1+i))))
		if err := m.AddConn(cs[i]); err != nil {
			e.Failf("mass", "registering connection %d of %d: %v", i, op.i(0), err)
			return
		}
	}
	for round := 0; round < 4; round++ {
		in := make([]bool, len(cs))
		for i, x := range cs {
			_, in[i] = m.LookupConnByUUID(x.UUID())
		}
		from := simrt.Seq()
		var err error
		if op.i(1) == 0 {
			err = m.Close()
		} else {
			err = m.Stop()
		}
		failures := 0
		for i, t := range trs {
			attempted, failed := false, false
			for _, a := range t.att {
				if a.start < from {
					continue
				}
				attempted = true
				if a.err != nil {
					failed = true
					failures++
					if err == nil || !errors.Is(err, a.err) {
						e.Failf("lost-error", "shutdown of %d connections returned %v but closing connection #%d failed with %v", len(cs), err, i, a.err)
						return
					}
				}
			}
			_, now := m.LookupConnByUID(uint64(1 + i))
			switch {
			case in[i] && !attempted:
				e.Failf("not-attempted", "shutdown of %d connections (returned %v) did not try to close connection #%d", len(cs), err, i)
				return
			case in[i] && failed && !t.closed && !now:
				e.Failf("dropped-unclosed", "connection #%d of %d could not be closed but is no longer registered", i, len(cs))
				return
			case t.closed && now:
				e.Failf("left-registered", "connection #%d of %d is closed but still registered", i, len(cs))
				return
			}
		}
		if err != nil && failures == 0 {
			e.Failf("spurious-error", "shutdown of %d connections returned %v although no close failed", len(cs), err)
		}
		e.Logf(c, "mass %d %d", len(cs), failures)
	}
}

type closeRec struct {
	c, x      int
	call, ret int64
	err       error
}

func init() {
	register(&Prop{
		ID: "C03", Quick: 200000, Thorough: 1500000, MaxSteps: 200000,
		Rule: "1-2 connections, 2-5 clients closing, reading, writing and reading attributes at the same time; transport closes fail or stall, reads block until the transport closes",
		Real: "sql/net connections", Stub: "net.Conn transport with failing and slow Close and blocking Read/Write",
		Gen: func(r *simrt.Rng) *Plan {
			pl := &Plan{}
			nx := 1 + r.Intn(2)
			for i := 0; i < nx; i++ {
				pl.Setup = append(pl.Setup, Op{K: "conn", I: []int{i}})
			}
			pl.Rate = []int{0, 100, 350, 600}[r.Intn(4)]
			nc := 2 + r.Intn(4)
			total := 0
			for c := 0; c < nc; c++ {
				var ops []Op
				k := 1 + r.Intn(4)
				for j := 0; j < k; j++ {
					x := r.Intn(nx)
					switch {
					case r.Bool(600):
						ops = append(ops, Op{K: "close", I: []int{x}})
					case r.Bool(300):
						ops = append(ops, Op{K: "attr", I: []int{x}})
					case r.Bool(300):
						ops = append(ops, Op{K: "sleep", I: []int{r.Intn(3)}})
					case c > 0 && j == k-1 && r.Bool(500):
						ops = append(ops, Op{K: []string{"read", "fill"}[r.Intn(2)], I: []int{x}})
					default:
						ops = append(ops, Op{K: "close", I: []int{x}})
					}
					total++
				}
				pl.Clients = append(pl.Clients, ops)
			}
			pl.Est = int64(total * 14)
			return pl
		},
		Build: func(e *Env) func() {
			var conns []sqlnet.Conn
			var trs []*tconn
			for i, o := range e.P.Setup {
				if o.K != "conn" {
					continue
				}
				t := newTConn(i)
				t.wr.max = 4
				trs = append(trs, t)
				conns = append(conns, sqlnet.NewConnWith(t, sqlnet.WithConnID(uint64(40+i)), sqlnet.WithConnUser("user"), sqlnet.WithConnDatabase("db")))
			}
			recs := make([][]closeRec, len(e.P.Clients)+1)
			blockers := func(op Op) bool { return op.K == "read" || op.K == "fill" }
			pending := 0
			for _, ops := range e.P.Clients {
				for _, op := range ops {
					if !blockers(op) {
						pending++
					}
				}
			}
			doClose := func(c, x int) error {
				r := closeRec{c: c, x: x, call: simrt.Seq()}
				r.err = conns[x].Close()
				r.ret = simrt.Seq()
				recs[c] = append(recs[c], r)
				e.Logf(c, "close %d %v", x, r.err)
				return r.err
			}
			rescue := func(c int) {
				// every other client is finished or blocked on I/O: faults stop, closes must get through
				e.S.StopFaults()
				for x := range conns {
					for k := 0; k < 3; k++ {
						if doClose(c, x) == nil {
							break
						}
					}
				}
			}
			if pending == 0 {
				pending = 1
				defer e.S.Spawn(func() { rescue(len(e.P.Clients)) })
			}
			for c := range e.P.Clients {
				e.S.Spawn(func() {
					for _, op := range e.P.Clients[c] {
						x := op.i(0)
						if op.K != "sleep" && x >= len(conns) {
							pending--
							continue
						}
						switch op.K {
						case "close":
							_ = doClose(c, x)
						case "attr":
							cn := conns[x]
							if cn.ID() != uint64(40+x) || cn.User() != "user" || cn.Database() != "db" || len(cn.Schemas()) != 0 || !cn.Timestamp().Equal(simrt.Epoch) {
								e.Failf("attributes", "attributes of connection %d changed: %v %q %q %v", x, cn.ID(), cn.User(), cn.Database(), cn.Timestamp())
							}
						case "sleep":
							simrt.Sleep(int64(op.i(0)) * 500_000)
						case "read":
							b := make([]byte, 4)
							n, err := conns[x].Read(b)
							e.Logf(c, "read %d %v", n, err)
							if !trs[x].closed {
								e.Failf("read", "read returned %d, %v while the transport is open and silent", n, err)
							}
							continue
						case "fill":
							n, err := conns[x].Write([]byte("0123456789"))
							e.Logf(c, "write %d %v", n, err)
							continue
						}
						pending--
						if pending == 0 {
							rescue(c)
						}
					}
				})
			}
			return func() {
				for x, t := range trs {
					succ := 0
					for _, a := range t.att {
						if a.err == nil {
							succ++
						}
						if a.again {
							e.Failf("double-close", "transport %d: a close call took effect after the transport had already been closed", x)
						}
					}
					if succ > 1 {
						e.Failf("double-close", "transport %d closed successfully %d times", x, succ)
					}
				}
				for _, rs := range recs {
					for _, r := range rs {
						t := trs[r.x]
						if r.err == nil {
							if !t.closed || t.closeSeq > r.ret {
								e.Failf("false-success", "Close of connection %d by client %d reported success but the transport was not closed", r.x, r.c)
							}
							continue
						}
						own := false
						for _, a := range t.att {
							if a.err == r.err && a.end > r.call && a.end < r.ret {
								own = true
							}
						}
						if !own {
							e.Failf("foreign-error", "Close of connection %d by client %d in [%d,%d] returned %v, which the transport did not return during that call", r.x, r.c, r.call, r.ret, r.err)
						}
					}
				}
				for x, c := range conns {
					if !trs[x].closed {
						e.Failf("not-closed", "connection %d could not be closed although the transport no longer fails", x)
					}
					if c.ID() != uint64(40+x) || c.User() != "user" || c.Database() != "db" {
						e.Failf("attributes", "attributes of connection %d changed after close", x)
					}
				}
			}
		},
	})
}
