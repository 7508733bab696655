package main

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"github.com/cybergarage/go-tracing/tracer"
	"github.com/google/uuid"

	sqlnet "github.com/cybergarage/go-sqlparser/sql/net"
	"verif.local/sim/simrt"
)

// stubSpan is a tracer context that records which context was used.
type stubSpan struct {
	id   int
	last [64]string // last StartSpan name per client
	hits [64]int
}

func (s *stubSpan) Span() tracer.Span { s.hits[max(simrt.Owner(), 0)]++; return nil }
func (s *stubSpan) StartSpan(name string) bool {
	o := max(simrt.Owner(), 0)
	s.last[o] = name
	s.hits[o]++
	return true
}
func (s *stubSpan) FinishSpan() bool { s.hits[max(simrt.Owner(), 0)]++; return true }

type attrState struct {
	user, db string
	schemas  string // joined
	span     int
}

type attrIn struct {
	k    string
	conn int
	s    []string
	n    int
}

type attrOut struct {
	s    string
	list []string
	n    int
}

// schKey encodes a list of names.
func schKey(l []string) string { return strings.Join(append([]string{"#"}, l...), "\x00") }

func attrModel(init attrState) LinModel[attrState] {
	return LinModel[attrState]{
		Init: init,
		Key:  func(s attrState) string { return s.user + "|" + s.db + "|" + s.schemas + "|" + fmt.Sprint(s.span) },
		Step: func(s attrState, op *LinOp) (bool, attrState) {
			in, out := op.In.(attrIn), op.Out.(attrOut)
			switch in.k {
			case "setuser":
				s.user = in.s[0]
			case "user":
				return out.s == s.user, s
			case "setdb":
				s.db, s.schemas = in.s[0], "#"
			case "db":
				return out.s == s.db, s
			case "setsch":
				cur := strings.Split(s.schemas, "\x00")[1:]
				for _, x := range in.s {
					found := false
					for _, y := range cur {
						found = found || x == y
					}
					if !found {
						cur = append(cur, x)
					}
				}
				s.schemas = schKey(cur)
			case "sch":
				return schKey(out.list) == s.schemas, s
			case "setspan":
				s.span = in.n
			case "span", "usespan":
				return out.n == s.span, s
			}
			return true, s
		},
	}
}

func init() {
	register(&Prop{
		ID: "C04", Quick: 200000, Thorough: 1500000, MaxSteps: 80000,
		Rule: "1-3 connections configured from one shared option slice, 2-4 clients setting and reading user, database, schemas and span context, scribbling over argument and result slices; per-connection linearizability",
		Real: "sql/net connections", Stub: "transport (unused), tracer contexts",
		Gen: func(r *simrt.Rng) *Plan {
			pl := &Plan{Cfg: map[string]int{"conns": 1 + r.Intn(3), "init": r.Intn(3), "spare": r.Intn(4)}}
			long, nilspan := r.Bool(25), r.Bool(250)
			if long {
				pl.Cfg["init"] = bigN(r)
			}
			nc := 2 + r.Intn(3)
			total := 0
			uniq := 0
			for c := 0; c < nc; c++ {
				k := 1 + r.Intn(7)
				var ops []Op
				for j := 0; j < k && total < 26; j++ {
					x := r.Intn(pl.Cfg["conns"])
					uniq++
					u := fmt.Sprintf("v%d", uniq)
					same := u
					if r.Bool(350) { // names that other calls use too
						same = []string{"u0", "d0", "x", "", "D0"}[r.Intn(5)]
					}
					var o Op
					switch r.Intn(14) {
					case 0:
						o = Op{K: "setuser", S: []string{same}}
					case 1:
						o = Op{K: "user"}
					case 2, 3:
						o = Op{K: "setdb", S: []string{same}}
					case 4:
						o = Op{K: "db"}
					case 5, 6:
						var ss []string
						for q := r.Intn(12) / 11; q < 1+r.Intn(3); q++ {
							if long && r.Bool(300) {
								for z := bigN(r); z > 0; z-- {
									ss = append(ss, fmt.Sprintf("%s_%d_%d", u, q, z))
								}
							} else if r.Bool(500) {
								ss = append(ss, []string{"s0", "s1", "s2", "s3", "S1", "s0,s1", "s", "s1 ", ""}[r.Intn(9)])
							} else {
								ss = append(ss, fmt.Sprintf("%s_%d", u, q))
							}
						}
						o = Op{K: "setsch", S: ss}
					case 7, 8, 9:
						o = Op{K: "sch"}
					case 10:
						o = Op{K: "setspan", I: []int{0, r.Intn(4)}}
						if nilspan && r.Bool(300) {
							o.I[1] = -1 // no tracing
						}
					case 11:
						o = Op{K: "span"}
					case 12:
						o = Op{K: "usespan", I: []int{0, r.Intn(3)}}
						if nilspan {
							o = Op{K: "span"}
						}
					case 13:
						o = Op{K: "scribble", S: []string{u}}
					}
					if len(o.I) == 0 {
						o.I = []int{x}
					} else {
						o.I[0] = x
					}
					ops = append(ops, o)
					total++
				}
				pl.Clients = append(pl.Clients, ops)
			}
			pl.Est = int64(total * 12)
			return pl
		},
		Build: func(e *Env) func() {
			nx := e.P.cfg("conns")
			base := make([]string, e.P.cfg("init"), e.P.cfg("init")+e.P.cfg("spare"))
			for i := range base {
				base[i] = fmt.Sprintf("s%d", i)
			}
			init := attrState{user: "u0", db: "d0", schemas: schKey(base), span: 0}
			var spans []tracer.Context
			var stubs []*stubSpan
			for i := 0; i < 4; i++ {
				sp := &stubSpan{id: i}
				stubs = append(stubs, sp)
				spans = append(spans, sp)
			}
			opts := []sqlnet.ConnOption{sqlnet.WithConnSchemas(base...), sqlnet.WithConnDatabase("d0"), sqlnet.WithConnUser("u0"), sqlnet.WithConnTracer(spans[0])}
			var conns []sqlnet.Conn
			var uuids []uuid.UUID
			for i := 0; i < nx; i++ {
				o := append(append([]sqlnet.ConnOption{}, opts...), sqlnet.WithConnID(uint64(i+7)))
				c := sqlnet.NewConnWith(newTConn(i), o...)
				conns = append(conns, c)
				uuids = append(uuids, c.UUID())
			}
			spanIdx := func(c tracer.Context) int {
				if c == nil {
					return -1
				}
				for i, s := range spans {
					if s == c {
						return i
					}
				}
				return -3
			}
			hist := make([][]LinOp, len(e.P.Clients))
			for c := range e.P.Clients {
				e.S.Spawn(func() {
					for _, op := range e.P.Clients[c] {
						x := op.i(0)
						if x >= nx {
							continue
						}
						cn := conns[x]
						in := attrIn{k: op.K, conn: x, s: op.S, n: op.i(1)}
						var out attrOut
						call := simrt.Seq()
						simrt.Y(34)
						switch op.K {
						case "setuser":
							cn.SetUser(op.s(0))
						case "user":
							out.s = cn.User()
						case "setdb":
							cn.SetDatabase(op.s(0))
						case "db":
							out.s = cn.Database()
						case "setsch":
							arg := append(make([]string, 0, len(op.S)+2), op.S...)
							cn.SetSchemas(arg...)
							arg = arg[:cap(arg)]
							for i := range arg {
								arg[i] = "scribbled-arg"
							}
						case "sch":
							l := cn.Schemas()
							out.list = append([]string{}, l...)
							l = l[:cap(l)]
							for i := range l {
								l[i] = "scribbled-result"
							}
						case "setspan":
							if k := op.i(1); k < 0 {
								cn.SetSpanContext(nil)
							} else {
								cn.SetSpanContext(spans[k%len(spans)])
							}
						case "span":
							out.n = spanIdx(cn.SpanContext())
						case "usespan":
							var before [8]int
							for i, s := range stubs {
								before[i] = s.hits[c]
							}
							switch op.i(1) {
							case 0:
								cn.StartSpan("x")
							case 1:
								cn.Span()
							case 2:
								cn.FinishSpan()
							}
							out.n = -1
							for i, s := range stubs {
								if s.hits[c] == before[i]+1 {
									out.n = i
								} else if s.hits[c] != before[i] {
									out.n = -2
								}
							}
						case "scribble":
							b := base[:cap(base)]
							for i := range b {
								b[i] = "scribbled-config"
							}
						}
						simrt.Y(35)
						h := LinOp{C: c, Call: call, Ret: simrt.Seq(), In: in, Out: out}
						hist[c] = append(hist[c], h)
						e.Logf(c, "%v %v", in, out)
						if cn.UUID() != uuids[x] || cn.ID() != uint64(x+7) || !cn.Timestamp().Equal(simrt.Epoch) {
							e.Failf("identity", "UUID, ID or creation time of connection %d changed", x)
						}
					}
				})
			}
			return func() {
				for x := 0; x < nx; x++ {
					var all []LinOp
					for _, h := range hist {
						for _, o := range h {
							if o.In.(attrIn).conn == x && o.In.(attrIn).k != "scribble" {
								all = append(all, o)
							}
						}
					}
					cn := conns[x]
					t := int64(1 << 40)
					add := func(k string, o attrOut) {
						all = append(all, LinOp{C: -1, Call: t, Ret: t + 1, In: attrIn{k: k, conn: x}, Out: o})
						t += 2
					}
					add("user", attrOut{s: cn.User()})
					add("db", attrOut{s: cn.Database()})
					add("sch", attrOut{list: cn.Schemas()})
					add("span", attrOut{n: spanIdx(cn.SpanContext())})
					ok, decided := linearizable(all, attrModel(init), 300000)
					if !decided {
						e.incon++
					} else if !ok {
						e.Failf("linearizability", "no sequential order of the attribute operations on connection %d (started with %+v) explains the results:%s", x, init, descHistory(all))
					}
				}
			}
		},
	})

	register(&Prop{
		ID: "C05", Quick: 200000, Thorough: 1200000, MaxSteps: 100000,
		Rule: "two loop-connected connections, readers, writers, deadline setters, attribute users and a late closer; transport injects short transfers, data with error, late errors, timeouts, end of stream and delays; every call is compared with what the transport saw and returned",
		Real: "sql/net connections", Stub: "duplex net.Conn transport with injected I/O faults and virtual deadlines",
		Gen: func(r *simrt.Rng) *Plan {
			pl := &Plan{Cfg: map[string]int{"max": []int{0, 1, 3, 8}[r.Intn(4)], "users": r.Intn(3)}}
			pl.Rate = []int{0, 60, 200, 400}[r.Intn(4)]
			// client 0: end A writer, 1: end B reader, 2: end B writer, 3: end A reader, 4+: attributes / deadlines
			total := 0
			for c := 0; c < 4; c++ {
				var ops []Op
				k := r.Intn(6)
				for j := 0; j < k; j++ {
					n := []int{0, 1, 2, 5, 16}[r.Intn(5)]
					if r.Bool(10) && pl.Cfg["max"] == 0 {
						n = []int{255, 256, 600, 4096, 4097, 5000, 33000, 70000}[r.Intn(8)]
					}
					ops = append(ops, Op{K: []string{"write", "read"}[c%2], I: []int{n, r.Intn(40)}})
				}
				total += k
				pl.Clients = append(pl.Clients, ops)
			}
			for u := 0; u < pl.Cfg["users"]; u++ {
				var ops []Op
				for j := 0; j < 1+r.Intn(5); j++ {
					ops = append(ops, Op{K: []string{"attr", "dl", "rdl", "wdl", "addr", "sleep", "dl0", "rdl0", "wdl0"}[r.Intn(9)], I: []int{r.Intn(2), r.Intn(22) - 2}})
					total++
				}
				pl.Clients = append(pl.Clients, ops)
			}
			pl.Est = int64(total * 16)
			return pl
		},
		Build: buildC05,
	})
}

type ioRec struct {
	end       int
	kind      string
	call, ret int64
	buf       *byte
	blen      int
	data      []byte
	n         int
	err       error
	t         time.Time
	c         int
}

func buildC05(e *Env) func() {
	ta, tb := newDuplex(0, e.P.cfg("max"))
	ta.record, tb.record = true, true
	trs := []*tconn{ta, tb}
	conns := []sqlnet.Conn{sqlnet.NewConnWith(ta, sqlnet.WithConnID(1)), sqlnet.NewConnWith(tb, sqlnet.WithConnID(2))}
	recs := make([][]ioRec, len(e.P.Clients)+1)
	endOf := func(c int) int {
		if c == 0 || c == 3 {
			return 0
		}
		return 1
	}
	nonReaders := 0
	finish := func(c int) {
		nonReaders--
		if nonReaders > 0 {
			return
		}
		// everything that can make progress has: close both ends through the connections,
		// retrying, so that blocked readers and writers see the end
		e.S.StopFaults()
		for i, cn := range conns {
			for k := 0; k < 3; k++ {
				if err := cn.Close(); err == nil {
					break
				} else {
					e.Logf(c, "final close %d %v", i, err)
				}
			}
		}
	}
	// tasks that may block for good (readers; writers on bounded pipes) do not hold up the closer
	blocking := func(c int) bool { return c < 4 && (c%2 == 1 || e.P.cfg("max") > 0) }
	for c := range e.P.Clients {
		if !blocking(c) {
			nonReaders++
		}
	}
	if nonReaders == 0 {
		nonReaders = 1
		defer e.S.Spawn(func() { simrt.Sleep(50_000_000); finish(len(e.P.Clients)) })
	}
	for c := range e.P.Clients {
		e.S.Spawn(func() {
			for _, op := range e.P.Clients[c] {
				r := ioRec{c: c, kind: op.K, call: simrt.Seq()}
				switch op.K {
				case "write", "read":
					r.end = endOf(c)
					b := make([]byte, op.i(0))
					for i := range b {
						if op.K == "write" {
							b[i] = byte(c*100 + op.i(1) + i)
						} else {
							b[i] = 0xEE
						}
					}
					r.buf, r.blen = bptr(b), len(b)
					if op.K == "write" {
						r.data = append([]byte{}, b...)
						r.n, r.err = conns[r.end].Write(b)
						if !bytes.Equal(b, r.data) {
							e.Failf("buffer", "write modified the caller's buffer")
						}
					} else {
						r.n, r.err = conns[r.end].Read(b)
						if r.n >= 0 && r.n <= len(b) {
							r.data = append([]byte{}, b[:r.n]...)
							for _, x := range b[r.n:] {
								if x != 0xEE {
									e.Failf("buffer", "read wrote beyond the returned count")
									break
								}
							}
						}
					}
				case "attr":
					cn := conns[op.i(0)%2]
					cn.SetUser("x")
					_ = cn.User()
					cn.SetDatabase("d")
					_ = cn.Schemas()
					continue
				case "addr":
					i := op.i(0) % 2
					if conns[i].LocalAddr() != trs[i].LocalAddr() || conns[i].RemoteAddr() != trs[i].RemoteAddr() {
						e.Failf("address", "addresses of end %d differ from the transport's", i)
					}
					continue
				case "sleep":
					simrt.Sleep(int64(max(op.i(1), 0)) * 200_000)
					continue
				case "dl", "rdl", "wdl", "dl0", "rdl0", "wdl0":
					r.end = op.i(0) % 2
					r.t = simrt.Epoch.Add(time.Duration(op.i(1)) * 300 * time.Microsecond)
					if strings.HasSuffix(op.K, "0") {
						r.t = time.Time{}
					}
					switch op.K {
					case "dl", "dl0":
						r.kind = "deadline"
						r.err = conns[r.end].SetDeadline(r.t)
					case "rdl", "rdl0":
						r.kind = "rdeadline"
						r.err = conns[r.end].SetReadDeadline(r.t)
					case "wdl", "wdl0":
						r.kind = "wdeadline"
						r.err = conns[r.end].SetWriteDeadline(r.t)
					}
				}
				r.ret = simrt.Seq()
				recs[c] = append(recs[c], r)
				e.Logf(c, "%s %d %v", r.kind, r.n, r.err)
			}
			if !blocking(c) {
				finish(c)
			}
		})
	}
	return func() {
		for i, t := range trs {
			used := make([]bool, len(t.calls))
			for _, rs := range recs {
				for _, r := range rs {
					if r.end != i {
						continue
					}
					match := -1
					for k, c := range t.calls {
						if !used[k] && c.kind == r.kind && c.owner == r.c && c.start > r.call && c.end < r.ret {
							match = k
							break
						}
					}
					if match < 0 {
						e.Failf("swallowed", "end %d: %s by client %d returned (%d, %v) without reaching the transport", i, r.kind, r.c, r.n, r.err)
						continue
					}
					used[match] = true
					c := t.calls[match]
					switch r.kind {
					case "read", "write":
						if c.n != r.n || c.err != r.err {
							e.Failf("result", "end %d: %s by client %d returned (%d, %v), the transport returned (%d, %v)", i, r.kind, r.c, r.n, r.err, c.n, c.err)
						} else if c.blen != r.blen || !bytes.Equal(c.data, r.data) {
							e.Failf("bytes", "end %d: %s by client %d: bytes or buffer length differ from what the transport saw: %v (%d) / %v (%d)", i, r.kind, r.c, r.data, r.blen, c.data, c.blen)
						}
					default:
						if !c.t.Equal(r.t) || c.err != r.err {
							e.Failf("deadline", "end %d: %s(%v) returned %v, the transport saw %v and returned %v", i, r.kind, r.t, r.err, c.t, c.err)
						}
					}
				}
			}
			for k, c := range t.calls {
				if !used[k] {
					e.Failf("extra-call", "end %d: the transport saw a %s that no caller made (owner %d)", i, c.kind, c.owner)
				}
			}
		}
	}
}
