package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/cybergarage/go-sqlparser/sql"
	"github.com/cybergarage/go-sqlparser/sql/fn"
	sqlnet "github.com/cybergarage/go-sqlparser/sql/net"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/query/response/resultset"
	"verif.local/sim/simrt"
)

// clockLog knows every reading the wall clock can give.
type clockLog struct {
	s     *simrt.Sim
	jumps [][2]int64 // reading before and after each jump
}

func (l *clockLog) jump(d int64) {
	b := l.s.NowNS()
	simrt.JumpClock(d)
	l.jumps = append(l.jumps, [2]int64{b, l.s.NowNS()})
}

type clockMark struct {
	t int64
	j int
}

func (l *clockLog) mark() clockMark { return clockMark{l.s.NowNS(), len(l.jumps)} }

// possible tells whether the clock showed t between a and now.
func (l *clockLog) possible(t time.Time, a clockMark) bool { return l.within(t, a, l.mark()) }

// within tells whether the clock showed t between a and b.
func (l *clockLog) within(t time.Time, a, b clockMark) bool {
	v := int64(t.Sub(simrt.Epoch))
	lo := a.t
	for k := a.j; k < b.j; k++ {
		if lo <= v && v <= l.jumps[k][0] {
			return true
		}
		lo = l.jumps[k][1]
	}
	return lo <= v && v <= b.t
}

// evaluator evaluates a function without arguments in one of the ways callers do.
type evaluator struct {
	name string
	eval func() (any, error)
}

// evaluators are built during setup and shared by all clients.
func evaluators(names []string, parsed bool) []evaluator {
	var out []evaluator
	for _, name := range names {
		f := fn.NewFunction(fn.WithFunctionName(name))
		ex, err := f.Executor()
		if err != nil {
			panic(err)
		}
		ex2, err := fn.NewExecutorForName(name)
		if err != nil {
			panic(err)
		}
		col := resultset.NewColumn(resultset.WithColumnName(name+"()"), resultset.WithColumnFunction(f))
		sc := resultset.NewSchema(resultset.WithSchemaColumns([]resultset.Column{col}))
		rows := []resultset.Row{resultset.NewRow(resultset.WithRowObject(map[string]any{"a": 1}))}
		// a row that holds fields called like the function
		var old any = simrt.Epoch.Add(-1000 * time.Hour)
		if name == "RAND" {
			old = 7.5
		}
		named := map[string]any{"a": 1, name: old, name + "()": old, strings.ToLower(name): old}
		nrows := []resultset.Row{resultset.NewRow(resultset.WithRowObject(named))}
		out = append(out, evaluator{name + " over a row with fields of that name", func() (any, error) { return ex.Execute(named) }},
			evaluator{name + " as a computed column over a row with fields of that name", func() (any, error) {
				rs := resultset.NewResultSet(resultset.WithResultSetSchema(sc), resultset.WithResultSetRows(nrows))
				if !rs.Next() {
					return nil, fmt.Errorf("no row")
				}
				row, err := rs.Row()
				if err != nil {
					return nil, err
				}
				return row.ValueBy(name + "()")
			}})
		if name != "RAND" {
			// the argument of a time function does not say what time it is
			xa, err := fn.NewFunction(fn.WithFunctionName(name), fn.WithFunctionArguments(fn.NewArgumentWith("a"))).Executor()
			if err != nil {
				panic(err)
			}
			out = append(out, evaluator{name + " of an older time", func() (any, error) { return xa.Execute(map[string]any{"a": old}) }})
		}
		out = append(out,
			evaluator{name + " by a shared executor", func() (any, error) { return ex.Execute(nil) }},
			evaluator{name + " by a shared executor over a row", func() (any, error) { return ex.Execute(map[string]any{"a": 1}) }},
			evaluator{name + " by a shared named executor", func() (any, error) { return ex2.Execute([]any{}) }},
			evaluator{name + " by the function's executor", func() (any, error) {
				e, err := f.Executor()
				if err != nil {
					return nil, err
				}
				return e.Execute(nil)
			}},
			evaluator{name + " by name", func() (any, error) { return fn.ExecuteFunction(name, nil) }},
			evaluator{name + " as a computed column", func() (any, error) {
				rs := resultset.NewResultSet(resultset.WithResultSetSchema(sc), resultset.WithResultSetRows(rows))
				if !rs.Next() {
					return nil, fmt.Errorf("no row")
				}
				row, err := rs.Row()
				if err != nil {
					return nil, err
				}
				return row.ValueAt(0)
			}})
	}
	name := names[len(names)-1]
	col := resultset.NewColumn(resultset.WithColumnName(name+"()"), resultset.WithColumnFunction(fn.NewFunction(fn.WithFunctionName(name))))
	sc := resultset.NewSchema(resultset.WithSchemaColumns([]resultset.Column{col}))
	long := make([]resultset.Row, 400)
	for i := range long {
		long[i] = resultset.NewRow(resultset.WithRowObject(map[string]any{"a": i}))
	}
	cursors := make([]resultset.ResultSet, 8)
	for i := range cursors {
		cursors[i] = resultset.NewResultSet(resultset.WithResultSetSchema(sc), resultset.WithResultSetRows(long))
	}
	out = append(out, evaluator{name + " as a computed column of the next row", func() (any, error) {
		rs := cursors[simrt.Owner()%len(cursors)]
		if !rs.Next() {
			return nil, fmt.Errorf("no row")
		}
		row, err := rs.Row()
		if err != nil {
			return nil, err
		}
		return row.ValueBy(name + "()")
	}})
	if parsed {
		sts, err := sql.NewParser().ParseString("SELECT " + names[0] + "() FROM t")
		if err != nil {
			panic(err)
		}
		sel := sts[0].(query.Select).Selectors()
		out = append(out, evaluator{names[0] + " of a parsed statement", func() (any, error) {
			exs, err := sel.Executors()
			if err != nil || len(exs) != 1 {
				return nil, fmt.Errorf("executors: %v %v", exs, err)
			}
			return exs[0].Execute(nil)
		}})
	}
	return out
}

func init() {
	register(&Prop{
		ID: "C12", Quick: 200000, Thorough: 8000000, MaxSteps: 200000,
		Rule: "2-4 clients evaluate NOW and CURRENT_TIMESTAMP in every way the API offers (executors obtained long before and shared, by function, by name, as computed columns, from parsed statements) and create connections, while the virtual clock advances, jumps forward and backward and may be coarse; every value must be a reading the clock showed during that evaluation",
		Real: "sql/fn, sql/net, sql/query/response/resultset", Stub: "wall clock (virtual), transport",
		Gen: func(r *simrt.Rng) *Plan {
			pl := &Plan{Cfg: map[string]int{"grain": []int{0, 0, 1000, 1000000, 1000000000}[r.Intn(5)]}}
			if r.Bool(20) {
				pl.Cfg["parsed"] = 1
			}
			nc := 2 + r.Intn(3)
			for c := 0; c < nc; c++ {
				var ops []Op
				for j := 0; j <= 1+r.Intn(6); j++ {
					switch r.Intn(8) {
					case 0:
						ops = append(ops, Op{K: "jump", I: []int{[]int{1, -1}[r.Intn(2)] * []int{1, 1000, 3600 * 1000, 5000 * 3600 * 1000}[r.Intn(4)]}})
					case 1:
						ops = append(ops, Op{K: "sleep", I: []int{1 + r.Intn(100000)}})
					case 2:
						ops = append(ops, Op{K: "conn", I: []int{r.Intn(4)}})
					case 3:
						ops = append(ops, Op{K: "ts", I: []int{r.Intn(8)}})
					default:
						ops = append(ops, Op{K: "eval", I: []int{r.Intn(21)}})
					}
				}
				pl.Clients = append(pl.Clients, ops)
			}
			pl.Est = int64(nc * 60)
			return pl
		},
		Build: func(e *Env) func() {
			e.S.ClockGrain = int64(e.P.cfg("grain"))
			cl := &clockLog{s: e.S}
			evs := evaluators([]string{"NOW", "CURRENT_TIMESTAMP"}, e.P.cfg("parsed") == 1)
			type cr struct {
				c        sqlnet.Conn
				from, to clockMark // when it was created
				ts       time.Time // first reading of its creation time
				read     bool
			}
			var setup []*cr
			check := func(c int, x *cr) {
				t := x.c.Timestamp()
				if !cl.within(t, x.from, x.to) {
					e.Failf("conn-time", "client %d: a connection created between %v and %v has the timestamp %v", c, time.Duration(x.from.t), time.Duration(x.to.t), t.Sub(simrt.Epoch))
				} else if x.read && !t.Round(0).Equal(x.ts.Round(0)) {
					e.Failf("conn-changed", "client %d: a connection's creation time went from %v to %v", c, x.ts, t)
				}
				x.ts, x.read = t, true
			}
			for i := 0; i < 2; i++ {
				m := cl.mark()
				c := sqlnet.NewConnWith(newTConn(i))
				setup = append(setup, &cr{c: c, from: m, to: cl.mark()})
			}
			own := make([][]*cr, len(e.P.Clients))
			for c := range e.P.Clients {
				e.S.Spawn(func() {
					for k, o := range e.P.Clients[c] {
						switch o.K {
						case "jump":
							cl.jump(int64(o.i(0)) * 1_000_000)
						case "sleep":
							simrt.Sleep(int64(o.i(0)) * 1_000_000)
						case "eval":
							ev := evs[o.i(0)%len(evs)]
							m := cl.mark()
							v, err := ev.eval()
							t, ok := v.(time.Time)
							e.Logf(c, "%s %v %v", ev.name, v, err)
							switch {
							case err != nil || !ok:
								e.Failf("eval", "client %d: %s gives %v, %v", c, ev.name, v, err)
							case !cl.possible(t, m):
								e.Failf("stale", "client %d: %s gives %v; the clock went from %v to %v during the evaluation (jumps meanwhile: %v)", c, ev.name, t.Sub(simrt.Epoch), time.Duration(m.t), time.Duration(e.S.NowNS()), cl.jumps[m.j:])
							}
						case "conn":
							m := cl.mark()
							var opts []sqlnet.ConnOption
							if o.i(0) > 0 {
								opts = append(opts, sqlnet.WithConnDatabase("d"), sqlnet.WithConnID(sqlnet.ConnID(c*10+k)))
							}
							n := sqlnet.NewConnWith(newTConn(10+c), opts...)
							x := &cr{c: n, from: m, to: cl.mark()}
							simrt.Y(45)
							if o.i(0) != 2 {
								check(c, x)
							}
							own[c] = append(own[c], x)
						case "ts":
							l := own[c]
							if o.i(0)&1 == 1 {
								l = append(l[:len(l):len(l)], setup[c%len(setup)])
							}
							for _, x := range l {
								// whatever happens to a connection
								switch o.i(0) >> 1 {
								case 1:
									x.c.SetUser("u")
									x.c.SetDatabase("d")
								case 2:
									x.c.SetSchemas("s")
									_, _ = x.c.Write([]byte("x"))
								case 3:
									_ = x.c.Close()
								}
								if o.i(0)&1 == 0 || c < len(setup) {
									check(c, x)
								}
							}
						}
					}
				})
			}
			return func() {
				for _, l := range append(own, setup) {
					for _, x := range l {
						check(-1, x)
					}
				}
			}
		},
	})
	register(&Prop{
		ID: "C13", Quick: 200000, Thorough: 8000000, MaxSteps: 200000,
		Rule: "2-4 clients evaluate RAND in every way the API offers (shared executors, by function, by name, as a computed column, from parsed statements) and create connections under generated and extreme entropy, with an exact or coarse clock; values must be in [0,1) and, with generated entropy, pairwise distinct; identities must be distinct and constant",
		Real: "sql/fn, sql/net, sql/query/response/resultset, google/uuid", Stub: "random device, wall clock, transport",
		Gen: func(r *simrt.Rng) *Plan {
			pl := &Plan{Cfg: map[string]int{"grain": []int{0, 1000000, 1000000000}[r.Intn(3)]}}
			pl.EntMode = []int{0, 0, 5, 1, 2, 3, 5, 4}[r.Intn(8)]
			if r.Bool(20) {
				pl.Cfg["parsed"] = 1
			}
			nc := 2 + r.Intn(3)
			for c := 0; c < nc; c++ {
				var ops []Op
				for j := 0; j <= 1+r.Intn(7); j++ {
					switch r.Intn(5) {
					case 0, 1:
						ops = append(ops, Op{K: "conn", I: []int{r.Intn(4)}})
					default:
						n := 1
						if r.Bool(15) {
							n = bigN(r)
						}
						ops = append(ops, Op{K: "eval", I: []int{r.Intn(8), n}})
					}
				}
				pl.Clients = append(pl.Clients, ops)
			}
			pl.Est = int64(nc * 60)
			return pl
		},
		Build: func(e *Env) func() {
			e.S.ClockGrain = int64(e.P.cfg("grain"))
			evs := evaluators([]string{"RAND"}, e.P.cfg("parsed") == 1)
			type val struct {
				c    int
				what string
				v    float64
			}
			type ident struct {
				c  sqlnet.Conn
				id [16]byte
			}
			vals := make([][]val, len(e.P.Clients))
			ids := make([][]ident, len(e.P.Clients))
			for c := range e.P.Clients {
				e.S.Spawn(func() {
					for _, o := range e.P.Clients[c] {
						switch o.K {
						case "eval":
							ev := evs[o.i(0)%len(evs)]
							for z := max(o.i(1), 1); z > 0; z-- {
								if len(vals[c]) >= 350 {
									break
								}
								v, err := ev.eval()
								f, ok := v.(float64)
								e.Logf(c, "%s %v %v", ev.name, v, err)
								switch {
								case err != nil || !ok:
									e.Failf("eval", "client %d: %s gives %v, %v", c, ev.name, v, err)
								case !(f >= 0 && f < 1):
									e.Failf("range", "client %d: %s gives %v (entropy mode %d), which is not in [0,1)", c, ev.name, f, e.P.EntMode)
								default:
									vals[c] = append(vals[c], val{c, ev.name, f})
								}
							}
						case "conn":
							var opts []sqlnet.ConnOption
							if o.i(0) > 0 {
								opts = append(opts, sqlnet.WithConnDatabase("d"))
							}
							if o.i(0) > 1 {
								opts = append(opts, sqlnet.WithConnID(7), sqlnet.WithConnUser("u"))
							}
							if o.i(0) > 2 {
								opts = append(opts, sqlnet.WithConnSchemas("s", "t"))
							}
							n := sqlnet.NewConnWith(newTConn(10+c), opts...)
							ids[c] = append(ids[c], ident{n, n.UUID()})
							simrt.Y(46)
						}
					}
				})
			}
			return func() {
				var all []val
				var conns []ident
				for c := range vals {
					all = append(all, vals[c]...)
					conns = append(conns, ids[c]...)
				}
				for i := range conns {
					if conns[i].c.UUID() != conns[i].id {
						e.Failf("identity-changed", "a connection's identity went from %x to %x", conns[i].id, conns[i].c.UUID())
					}
				}
				if e.P.EntMode != 0 && e.P.EntMode != 5 {
					return
				}
				seen := map[float64]int{}
				for i := range all {
					if j, dup := seen[all[i].v]; dup {
						e.Failf("replayed", "%s of client %d and %s of client %d both give %v", all[j].what, all[j].c, all[i].what, all[i].c, all[i].v)
						return
					}
					seen[all[i].v] = i
				}
				for i := range conns {
					for j := 0; j < i; j++ {
						if conns[i].id == conns[j].id {
							e.Failf("identity", "two connections have the identity %x", conns[i].id)
							return
						}
					}
				}
			}
		},
	})
}
