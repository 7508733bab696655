package main

import (
	"errors"
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/stmt"
	"verif.local/sim/simrt"
)

// bindTemplates are statements with {n} for the n-th parameter; {q} is text
// inside a string literal that looks like a placeholder. Templates from
// bindAnyOrder on can only be written with numbered placeholders.
var bindTemplates = []string{
	"SELECT * FROM t WHERE a = {1}",
	"SELECT a, b FROM t WHERE a = {1} AND b > {2}",
	"INSERT INTO t (a, b) VALUES ({1}, {2})",
	"UPDATE t SET a = {1} WHERE b = {2} AND c = 'why{q}'",
	"INSERT INTO t (a, b, c) VALUES ({1}, 'it''s {q} {q}', {2})",
	"DELETE FROM t WHERE a = {1}; DELETE FROM t WHERE b = {2}",
	"INSERT INTO t (a, b, c) VALUES ({1},{2},{3})",
	"UPDATE t SET a = {1}, b = {2} WHERE c = {3}",
	"INSERT INTO t (c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11) VALUES ({1}, {2}, {3}, {4}, {5}, {6}, {7}, {8}, {9}, {10}, {11})",
	"SELECT * FROM t WHERE a = 'x{q}'",
	"SELECT \"a{q}\", `b{q}`, [c{q}] FROM t WHERE a = {1}",
	"INSERT /* it's {q} */ INTO t (a) VALUES ({1}) -- isn't {q} it",
	"-- \"{q}\nSELECT * FROM t WHERE a = {1} /*/ {q} ' */ AND b = {2}",
	"INSERT INTO t ({c}) VALUES ({p})",
	"DELETE FROM t WHERE a = {2} AND b = {1}",
	"SELECT * FROM t WHERE a = {1} OR b = {1}",
	"INSERT INTO t (a, b, c) VALUES ({3}, {1}, {2})",
	"UPDATE t SET a = {2} WHERE a = {1} OR b = {2}",
}

const bindAnyOrder = 14

const bindMany = 120 // parameters of the longest statement

func init() {
	for i, t := range bindTemplates {
		var cs, ps []string
		for n := 1; n <= bindMany; n++ {
			cs, ps = append(cs, fmt.Sprintf("c%d", n)), append(ps, fmt.Sprintf("{%d}", n))
		}
		bindTemplates[i] = strings.NewReplacer("{c}", strings.Join(cs, ", "), "{p}", strings.Join(ps, ", ")).Replace(t)
	}
}

func bindArity(i int) int {
	for n := bindMany; n > 0; n-- {
		if strings.Contains(bindTemplates[i], "{"+strconv.Itoa(n)+"}") {
			return n
		}
	}
	return 0
}

// bindText writes the template with the given placeholder or literal texts.
func bindText(i int, numbered bool, lit []string) string {
	t := bindTemplates[i]
	ph := func(n int) string {
		if n <= len(lit) {
			return lit[n-1]
		}
		if numbered {
			return "$" + strconv.Itoa(n)
		}
		return "?"
	}
	var b strings.Builder
	for {
		p := strings.IndexByte(t, '{')
		if p < 0 {
			return b.String() + t
		}
		q := strings.IndexByte(t, '}')
		b.WriteString(t[:p])
		if k := t[p+1 : q]; k == "q" {
			if numbered {
				b.WriteString("$1")
			} else {
				b.WriteString("?")
			}
		} else {
			n, _ := strconv.Atoi(k)
			b.WriteString(ph(n))
		}
		t = t[q+1:]
	}
}

// bindVals are the parameter values; texts that look like placeholders on purpose.
var bindVals = []any{1, "abc", "what?", "$2", "$1 and ?", -7, 2.5, "?", "$10", "", "x$1y$2z", 1e21, "a", int64(42), "100", float32(0.25),
	nil, "it's", "'", "''", "a'); DELETE FROM t; --", "\"x\"", "x\ny", true, uint8(7), 1 << 53, "/* */", "-- x",
	[]byte("text"), []byte("a OR 1 = 1"), []byte("it's"), int64(1<<53 + 1), int64(-1 << 63), uint64(1<<64 - 1), int8(-1),
	time.Date(2024, 2, 29, 23, 59, 58, 0, time.UTC), time.Date(1999, 12, 31, 1, 2, 3, 40000, time.UTC)}

func bindLit(v any) string {
	switch v := v.(type) {
	case nil:
		return "NULL"
	case string:
		return "'" + strings.ReplaceAll(v, "'", "''") + "'"
	case []byte:
		return bindLit(string(v))
	case time.Time:
		l := "2006-01-02 15:04:05"
		if v.Nanosecond() != 0 {
			l += ".000000"
		}
		return bindLit(v.Format(l))
	case float64:
		return strconv.FormatFloat(v, 'g', -1, 64)
	case float32:
		return strconv.FormatFloat(float64(v), 'g', -1, 32)
	}
	return fmt.Sprint(v)
}

// bindCtx is the current execution of a client.
type bindCtx struct {
	v      int
	failed []error
	armed  bool
}

// simParam is a parameter of the session that is executing: its value is the
// session's current one, its conversion takes time and may fail.
type simParam struct {
	ctxs []*bindCtx
	pos  int
}

func (p *simParam) value(c int) any {
	return bindVals[(p.ctxs[c].v+p.pos*p.ctxs[c].v/3+p.pos)%len(bindVals)]
}

func (p *simParam) String() (string, error) {
	c := simrt.Owner()
	if c < 0 || c >= len(p.ctxs) {
		return bindLit(bindVals[0]), nil
	}
	ctx := p.ctxs[c]
	simrt.Y(47)
	if k := simrt.F("param-slow", len(stalls)); k > 1 {
		simrt.Sleep(stalls[k-1] * 1000)
	}
	if ctx.armed {
		if k := simrt.F("param-error", nErrKinds*2); k > 0 && k <= nErrKinds {
			err := anyErr(k, fmt.Sprintf("conversion of parameter %d failed", p.pos+1))
			ctx.failed = append(ctx.failed, err)
			if k%2 == 0 {
				return bindLit(p.value(c)), err // a value together with an error
			}
			return "", err
		}
	}
	return bindLit(p.value(c)), nil
}

type bindPrep struct {
	tmpl     int
	numbered bool
	params   stmt.BindParams
	kinds    []int // per parameter: -1 session parameter, else index of a fixed value, -2 inconvertible
	st       stmt.BindStatement
}

func init() {
	register(&Prop{
		ID: "C16", Secs: 40, Quick: 40000, Thorough: 1500000, MaxSteps: 600000,
		Rule: "2-4 sessions execute 1-3 shared prepared statements (both placeholder styles, repeated and out-of-order numbers, placeholder look-alikes in literals, quoted names, comments and values, texts with quotes, nulls, too few and too many parameters, shared parameter lists); parameters are fixed or the executing session's current ones, convert slowly and fail by injection; every execution is compared with a fresh parse of the text with the literals written in, earlier results are inspected again",
		Real: "sql/stmt, sql, sql/parser/sqlite, sql/query", Stub: "parameter conversion of session parameters",
		Gen: func(r *simrt.Rng) *Plan {
			pl := &Plan{Rate: []int{0, 60, 250}[r.Intn(3)]}
			ns := 1 + r.Intn(3)
			first := r.Intn(len(bindTemplates))
			for i := 0; i < ns; i++ {
				t := first
				if r.Bool(600) {
					t = r.Intn(len(bindTemplates))
				}
				if t == bindAnyOrder-1 && r.Bool(800) {
					t = r.Intn(bindAnyOrder - 1) // long: seldom
				}
				numbered := r.Intn(2)
				if t >= bindAnyOrder {
					numbered = 1
				}
				n := bindArity(t)
				if r.Bool(80) {
					n += []int{-1, 1}[r.Intn(2)]
				}
				share := 0
				if i > 0 && r.Bool(400) {
					share = 1 // the previous statement's parameter list
				}
				I := []int{t, numbered, share}
				for k := 0; k < n; k++ {
					kind := -1
					if r.Bool(300) {
						kind = r.Intn(len(bindVals))
					}
					if r.Bool(10) {
						kind = -2
					}
					I = append(I, kind)
				}
				pl.Setup = append(pl.Setup, Op{K: "prepare", I: I})
			}
			nc := 2 + r.Intn(3)
			for c := 0; c < nc; c++ {
				var ops []Op
				for j := 0; j <= r.Intn(4); j++ {
					ops = append(ops, Op{K: "exec", I: []int{r.Intn(ns), r.Intn(len(bindVals)), r.Intn(3), use(r)}})
				}
				pl.Clients = append(pl.Clients, ops)
			}
			pl.Est = int64(nc * 200)
			return pl
		},
		Build: func(e *Env) func() {
			ctxs := make([]*bindCtx, len(e.P.Clients))
			for i := range ctxs {
				ctxs[i] = &bindCtx{}
			}
			var preps []*bindPrep
			for _, o := range e.P.Setup {
				p := &bindPrep{tmpl: o.i(0), numbered: o.i(1) == 1}
				if o.i(2) == 1 && len(preps) > 0 {
					q := preps[len(preps)-1]
					p.params, p.kinds = q.params, q.kinds
				} else {
					for k, kind := range o.I[3:] {
						switch kind {
						case -1:
							p.params = append(p.params, &simParam{ctxs, k})
						case -2:
							p.params = append(p.params, stmt.NewBindParam(struct{ x []int }{}))
						default:
							p.params = append(p.params, stmt.NewBindParam(bindVals[kind]))
						}
						p.kinds = append(p.kinds, kind)
					}
				}
				p.st = stmt.NewBindStatement(stmt.WithBindStatementQuery(bindText(p.tmpl, p.numbered, nil)), stmt.WithBindStatementParams(p.params))
				preps = append(preps, p)
			}
			if len(preps) == 0 {
				return nil
			}
			type res struct {
				what, want, got string
				sts             []query.Statement
			}
			results := make([][]res, len(e.P.Clients))
			for c := range e.P.Clients {
				e.S.Spawn(func() {
					for _, o := range e.P.Clients[c] {
						p := preps[o.i(0)%len(preps)]
						ctx := ctxs[c]
						*ctx = bindCtx{v: o.i(1), armed: o.i(2) > 0}
						sts, err := p.st.Statements()
						what := fmt.Sprintf("%q with %d parameters", bindText(p.tmpl, p.numbered, nil), len(p.kinds))
						e.Logf(c, "%s: %s", what, full(sts, err))
						var lits []string
						bad := false
						for k, kind := range p.kinds {
							switch kind {
							case -1:
								lits = append(lits, bindLit((&simParam{ctxs, k}).value(c)))
							case -2:
								bad = true
								lits = append(lits, "")
							default:
								lits = append(lits, bindLit(bindVals[kind]))
							}
						}
						switch {
						case len(ctx.failed) > 0:
							ok := bad && err != nil // either error may be reported
							for _, f := range ctx.failed {
								ok = ok || errors.Is(err, f)
							}
							ok = ok || err != nil && len(lits) > bindArity(p.tmpl)
							if !ok || len(sts) > 0 {
								e.Failf("param-error", "client %d: executing %s gives %d statements and the error %v although %v", c, what, len(sts), err, ctx.failed[0])
							}
						case bad || len(lits) > bindArity(p.tmpl):
							if err == nil || len(sts) > 0 {
								e.Failf("accepted", "client %d: executing %s (inconvertible parameter: %v) gives %d statements and the error %v", c, what, bad, len(sts), err)
							}
						default:
							got := full(sts, err)
							if o.i(3) == 1 {
								consume(sts)
								sts = nil
							}
							results[c] = append(results[c], res{what, bindText(p.tmpl, p.numbered, lits), got, sts})
						}
					}
				})
			}
			return func() {
				for c := range results {
					for _, r := range results[c] {
						want := solo(r.want)
						wbad, gbad := strings.HasPrefix(want, "ERR "), strings.HasPrefix(r.got, "ERR ")
						if wbad != gbad || !wbad && want != r.got {
							e.Failf("binding", "client %d: executing %s gives %s; %q is %s", c, r.what, r.got, r.want, want)
							return
						}
						if !gbad && r.sts != nil {
							if now := full(r.sts, nil); now != r.got {
								e.Failf("changed", "client %d: the statement obtained from %s went from %s to %s", c, r.what, r.got, now)
							}
						}
					}
				}
			}
		},
	})
}
