package main

import (
	"fmt"

	"github.com/cybergarage/go-sqlparser/sql"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"verif.local/sim/simrt"
	"verif.local/sim/ssync"
)

type kept struct {
	text string
	full string
	sts  []query.Statement
}

// parseOp parses op.S[0] and checks it against the required meaning op.S[1].
func parseOp(e *Env, c int, p sql.Parser, op Op, keep *[]kept) string {
	f, sts := parseFull(p, op.s(0))
	e.Logf(c, "%s -> %s", op.s(0), f)
	switch w := op.s(1); w {
	case "":
	case "!":
		if len(f) < 4 || f[:4] != "ERR " {
			e.Failf("accepted", "client %d: malformed input %q was accepted as %s", c, op.s(0), f)
		}
	default:
		if len(f) >= 4 && f[:4] == "ERR " {
			e.Failf("rejected", "client %d: valid input %q was rejected: %s", c, op.s(0), f)
		} else if d := describeAll(sts); d != w {
			e.Failf("meaning", "client %d: %q means %s, but the parser says %s", c, op.s(0), w, d)
		}
	}
	if op.i(1) == 1 {
		consume(sts)
	} else if sts != nil {
		*keep = append(*keep, kept{op.s(0), f, sts})
	}
	return f
}

// consume does to statements what their owner may: it is the caller's data.
func consume(sts []query.Statement) {
	for _, s := range sts {
		var cs query.Columns
		switch s := s.(type) {
		case query.Insert:
			for _, row := range s.Values() {
				cs = append(cs, row...)
			}
		case query.Update:
			cs = s.Columns()
		}
		for _, c := range cs {
			if c.HasValue() {
				_ = c.SetValue("consumed")
			}
		}
	}
	for i := range sts {
		sts[i] = nil
	}
}

func checkKept(e *Env, c int, keep []kept) {
	for _, k := range keep {
		if f := full(k.sts, nil); f != k.full {
			e.Failf("changed", "client %d: statements of %q changed from %s to %s", c, k.text, k.full, f)
			return
		}
	}
}

func use(r *simrt.Rng) int {
	if r.Bool(250) {
		return 1
	}
	return 0
}

func init() {
	register(&Prop{
		ID: "C06", Secs: 40, Quick: 60000, Thorough: 300000, MaxSteps: 600000, ColdMod: 40,
		Rule: "2-4 clients, each with its own parsers (possibly several), parse generated valid, malformed, empty and multi-statement inputs; every 40th run is the first of a fresh process, so that the one-time initialisation happens concurrently; some callers then change the values of the statements they obtained; answers are compared with the generated meaning and with a fresh parser used alone",
		Real: "sql, sql/parser/sqlite (generated parser and visitor), sql/query, sql/fn", Stub: "none (the ANTLR runtime library runs real code between scheduling points)",
		Gen: func(r *simrt.Rng) *Plan {
			pl := &Plan{}
			var seen []twin
			nc := 2 + r.Intn(3)
			if r.Bool(25) {
				nc = 5 + r.Intn(8)
			}
			bad := []int{0, 150, 400}[r.Intn(3)]
			for c := 0; c < nc; c++ {
				var ops []Op
				for j := 0; j <= r.Intn(3); j++ {
					t, w := related(r, fmt.Sprintf("%c%d", 'a'+c, j), bad, &seen)
					np := 0
					if r.Bool(400) {
						np = 1
					}
					ops = append(ops, Op{K: "parse", I: []int{np, use(r)}, S: []string{t, w}})
				}
				if r.Bool(300) && c > 0 {
					// the same text as another client
					o := pl.Clients[c-1][0]
					ops = append(ops, o)
				}
				pl.Clients = append(pl.Clients, ops)
			}
			pl.Est = int64(nc * 300)
			return pl
		},
		Build: func(e *Env) func() {
			if !e.P.Cold {
				for _, c := range e.P.Clients {
					for _, o := range c {
						solo(o.s(0))
					}
				}
			}
			res := make([][]string, len(e.P.Clients))
			for c := range e.P.Clients {
				e.S.Spawn(func() {
					var p sql.Parser
					var keep []kept
					for _, op := range e.P.Clients[c] {
						if p == nil || op.i(0) == 1 || op.s(1) == "!" {
							p = sql.NewParser()
						}
						res[c] = append(res[c], parseOp(e, c, p, op, &keep))
						if op.s(1) == "!" {
							p = nil // histories of one parser are C07's business
						}
					}
					checkKept(e, c, keep)
				})
			}
			return func() {
				for c := range res {
					for k, op := range e.P.Clients[c] {
						if k < len(res[c]) && res[c][k] != solo(op.s(0)) {
							e.Failf("influence", "client %d: %q gave %s; a fresh parser used alone gives %s", c, op.s(0), res[c][k], solo(op.s(0)))
						}
					}
				}
			}
		},
	})
	register(&Prop{
		ID: "C07", Secs: 40, Quick: 60000, Thorough: 300000, MaxSteps: 600000,
		Rule: "one parser handed back and forth between 1-3 clients (one at a time) parses a generated history of 3-10 (now and then up to 150) valid, malformed, empty, comment-only and multi-statement inputs; every answer is compared with the generated meaning and a fresh parser, and all earlier statements are inspected again",
		Real: "sql, sql/parser/sqlite, sql/query, sql/fn", Stub: "none (as C06)",
		Gen: func(r *simrt.Rng) *Plan {
			pl := &Plan{}
			var seen []twin
			nc := 1 + r.Intn(3)
			bad := []int{100, 300, 600}[r.Intn(3)]
			for c := 0; c < nc; c++ {
				var ops []Op
				n := 1 + r.Intn(4)
				if r.Bool(8) {
					n = 10 + r.Intn(40)
				}
				if r.Bool(3) { // a long history of short inputs
					for j := 70 + r.Intn(450); j > 0; j-- {
						k := r.Intn(5)
						if bad == 600 && r.Bool(800) {
							k = 4
						}
						ops = append(ops, Op{K: "parse", I: []int{0, use(r)}, S: [][]string{{"BEGIN", "BEGIN"}, {"COMMIT", "COMMIT"}, {"ROLLBACK", "ROLLBACK"}, {"", ""}, {"SELEC", "!"}}[k]})
					}
				}
				for j := 0; j <= n; j++ {
					t, w := related(r, fmt.Sprintf("%c%d", 'a'+c, j), bad, &seen)
					ops = append(ops, Op{K: "parse", I: []int{0, use(r)}, S: []string{t, w}})
				}
				pl.Clients = append(pl.Clients, ops)
			}
			pl.Est = int64(nc * 100)
			return pl
		},
		Build: func(e *Env) func() {
			for _, c := range e.P.Clients {
				for _, o := range c {
					solo(o.s(0))
				}
			}
			p := sql.NewParser()
			var mu ssync.Mutex
			res := make([][]string, len(e.P.Clients))
			for c := range e.P.Clients {
				e.S.Spawn(func() {
					var keep []kept
					for _, op := range e.P.Clients[c] {
						mu.Lock()
						res[c] = append(res[c], parseOp(e, c, p, op, &keep))
						mu.Unlock()
						checkKept(e, c, keep)
						simrt.Y(36)
					}
					checkKept(e, c, keep)
				})
			}
			return func() {
				for c := range res {
					for k, op := range e.P.Clients[c] {
						if k < len(res[c]) && res[c][k] != solo(op.s(0)) {
							e.Failf("history", "client %d: the reused parser answered %q with %s; a fresh parser gives %s", c, op.s(0), res[c][k], solo(op.s(0)))
						}
					}
				}
			}
		},
	})
}
