package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"strings"

	"github.com/google/uuid"

	sqlnet "github.com/cybergarage/go-sqlparser/sql/net"
	"verif.local/sim/simrt"
)

// aliasConn is a connection that claims another connection's UUID.
type aliasConn struct {
	sqlnet.Conn
	u uuid.UUID
}

func (a *aliasConn) UUID() uuid.UUID { return a.u }

// connPool describes the connections of a plan: setup op "conn" I=[id, uuidOf].
type connPool struct {
	conns []sqlnet.Conn
	tr    []*tconn
	ids   []uint64
	uuids []uuid.UUID
	uid   []int // uuid class
}

func buildPool(setup []Op) *connPool {
	p := &connPool{}
	for i, o := range setup {
		if o.K != "conn" {
			continue
		}
		t := newTConn(i)
		var c sqlnet.Conn = sqlnet.NewConnWith(t, sqlnet.WithConnID(uint64(o.i(0))))
		cls := len(p.conns)
		if k := o.i(1); k > 0 && k-1 < len(p.conns) {
			c = &aliasConn{c, p.conns[k-1].UUID()}
			cls = p.uid[k-1]
		}
		p.conns = append(p.conns, c)
		p.tr = append(p.tr, t)
		p.ids = append(p.ids, c.ID())
		p.uuids = append(p.uuids, c.UUID())
		p.uid = append(p.uid, cls)
	}
	return p
}

func (p *connPool) index(c sqlnet.Conn) int {
	for i, x := range p.conns {
		if x == c {
			return i
		}
	}
	return -1
}

type rIn struct {
	k    string
	a, b int
}

type rOut struct {
	err string // "", exist, notexist, other
	c   int    // looked-up connection, -1 none, -2 unknown object
	set uint64
	bad string
}

func errKind(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, sqlnet.ErrExist) && !errors.Is(err, sqlnet.ErrNotExist):
		return "exist"
	case errors.Is(err, sqlnet.ErrNotExist) && !errors.Is(err, sqlnet.ErrExist):
		return "notexist"
	}
	return "other:" + err.Error()
}

// twin is the registered connection that has both identifiers of c.
func (p *connPool) twin(st uint64, c int) int {
	for i := range p.conns {
		if st&(1<<i) != 0 && i != c && p.ids[i] == p.ids[c] && p.uid[i] == p.uid[c] {
			return i
		}
	}
	return -1
}

func (p *connPool) model() LinModel[uint64] {
	clash := func(st uint64, c int, except int) bool {
		for i := range p.conns {
			if st&(1<<i) != 0 && i != except && (p.ids[i] == p.ids[c] || p.uid[i] == p.uid[c]) {
				return true
			}
		}
		return false
	}
	return LinModel[uint64]{
		Key: func(s uint64) string {
			return string(binary.LittleEndian.AppendUint64(nil, s))
		},
		Step: func(s uint64, op *LinOp) (bool, uint64) {
			in, out := op.In.(rIn), op.Out.(rOut)
			switch in.k {
			case "add":
				if clash(s, in.a, -1) {
					return out.err == "exist", s
				}
				return out.err == "", s | 1<<in.a
			case "update":
				if s&(1<<in.a) == 0 {
					// a connection with both identifiers of the replaced one may stand for it
					if t := p.twin(s, in.a); t >= 0 && out.err != "notexist" {
						if clash(s, in.b, t) {
							return out.err == "exist", s
						}
						return out.err == "", s&^(1<<t) | 1<<in.b
					}
					return out.err == "notexist", s
				}
				if clash(s, in.b, in.a) {
					return out.err == "exist", s
				}
				return out.err == "", s&^(1<<in.a) | 1<<in.b
			case "remove":
				if s&(1<<in.a) == 0 {
					return true, s
				}
				return out.err == "", s &^ (1 << in.a)
			case "rmid", "rmuuid":
				for i := range p.conns {
					if s&(1<<i) != 0 && (in.k == "rmid" && p.ids[i] == uint64(in.a) || in.k == "rmuuid" && p.uid[i] == p.uid[in.a]) {
						return true, s &^ (1 << i)
					}
				}
				return true, s
			case "lookid", "lookuuid":
				want := -1
				for i := range p.conns {
					if s&(1<<i) != 0 && (in.k == "lookid" && p.ids[i] == uint64(in.a) || in.k == "lookuuid" && p.uid[i] == p.uid[in.a]) {
						want = i
					}
				}
				return out.c == want, s
			case "conns":
				return out.bad == "" && out.set == s, s
			}
			return false, s
		},
	}
}

// apply performs one registry operation.
func (p *connPool) apply(m sqlnet.ConnManager, in rIn) rOut {
	look := func(c sqlnet.Conn, ok bool) rOut {
		if !ok {
			if c != nil {
				return rOut{c: -3}
			}
			return rOut{c: -1}
		}
		i := p.index(c)
		if i < 0 {
			i = -2
		}
		return rOut{c: i}
	}
	switch in.k {
	case "add":
		return rOut{err: errKind(m.AddConn(p.conns[in.a]))}
	case "update":
		return rOut{err: errKind(m.UpdateConn(p.conns[in.a], p.conns[in.b]))}
	case "remove":
		return rOut{err: errKind(m.RemoveConn(p.conns[in.a]))}
	case "rmid":
		m.RemoveConnByUID(uint64(in.a))
	case "rmuuid":
		m.RemoveConnByUUID(p.uuids[in.a])
	case "lookid":
		return look(m.LookupConnByUID(uint64(in.a)))
	case "lookuuid":
		return look(m.LookupConnByUUID(p.uuids[in.a]))
	case "conns":
		o := rOut{}
		cs := m.Conns()
		for k, c := range cs {
			i := p.index(c)
			if i < 0 || o.set&(1<<i) != 0 {
				o.bad = fmt.Sprintf("unknown or repeated entry %d", i)
			} else {
				o.set |= 1 << i
			}
			cs[k] = nil // the listing is the caller's own
		}
		return o
	}
	return rOut{}
}

func descHistory(hs []LinOp) string {
	var b strings.Builder
	for _, h := range hs {
		fmt.Fprintf(&b, "\n  [%d,%d] client %d %v -> %v", h.Call, h.Ret, h.C, h.In, h.Out)
	}
	return b.String()
}

func genPoolSetup(r *simrt.Rng) []Op {
	n := 3 + r.Intn(4)
	nid := 2 + r.Intn(3)
	if r.Bool(25) {
		n = 17 + r.Intn(44)
		nid = 2 * n
	}
	var setup []Op
	var cls []int
	wide := r.Bool(300) && n < 10
	for i := 0; i < n; i++ {
		id, al, c := r.Intn(nid), 0, i
		if wide {
			id = []int{0, 1, 1 << 32, 1<<32 + 1, 1<<63 - 1, -1, 1 << 16, 1 << 8}[r.Intn(8)]
		}
		if i > 0 && r.Bool(220) {
			al = 1 + r.Intn(i)
			c = cls[al-1]
		}
		// two connections may share the UUID or the ID, never both
		for j := range setup {
			if cls[j] == c && setup[j].I[0] == id {
				id = 100 + i
			}
		}
		cls = append(cls, c)
		setup = append(setup, Op{K: "conn", I: []int{id, al}})
	}
	return setup
}

// hasTwin tells whether another connection has both identifiers of connection k.
func hasTwin(setup []Op, k int) bool {
	cls := func(i int) int {
		for setup[i].I[1] > 0 {
			i = setup[i].I[1] - 1
		}
		return i
	}
	for i := range setup {
		if i != k && setup[i].I[0] == setup[k].I[0] && cls(i) == cls(k) {
			return true
		}
	}
	return false
}

func genRegOp(r *simrt.Rng, setup []Op) Op {
	n := len(setup)
	c := func() int { return r.Intn(n) }
	switch r.Intn(20) {
	case 0, 1, 2, 3, 4:
		return Op{K: "add", I: []int{c()}}
	case 5, 6, 7:
		return Op{K: "update", I: []int{c(), c()}}
	case 8, 9:
		return Op{K: "remove", I: []int{c()}}
	case 10, 11:
		return Op{K: "rmid", I: []int{setup[c()].I[0]}}
	case 12, 13:
		return Op{K: "rmuuid", I: []int{c()}}
	case 14, 15:
		return Op{K: "lookid", I: []int{setup[c()].I[0]}}
	case 16, 17:
		return Op{K: "lookuuid", I: []int{c()}}
	}
	return Op{K: "conns"}
}

func init() {
	register(&Prop{
		ID: "C01", Quick: 200000, Thorough: 1500000, MaxSteps: 60000,
		Rule: "2-4 clients, up to 24 registry operations over 3-6 (now and then up to 60) connections with colliding IDs and UUIDs; the history plus a final full observation is checked for linearizability against a set model",
		Real: "sql/net connection registry and connections", Stub: "net.Conn transport (never used for I/O here)",
		Gen: func(r *simrt.Rng) *Plan {
			pl := &Plan{Setup: genPoolSetup(r)}
			if r.Bool(250) && len(pl.Setup) < 10 {
				// a connection put in place of another one under its identifiers
				k := r.Intn(len(pl.Setup))
				pl.Setup = append(pl.Setup, Op{K: "conn", I: []int{pl.Setup[k].I[0], k + 1}})
			}
			if r.Bool(700) {
				pl.MapSeed = r.U64()
			}
			nc := 2 + r.Intn(3)
			total := 0
			pre := r.Intn(len(pl.Setup))
			if len(pl.Setup) > 10 {
				pre = len(pl.Setup) - r.Intn(10)
			}
			var first []Op
			for i := 0; i < pre; i++ {
				first = append(first, Op{K: "add", I: []int{i}})
			}
			pl.Setup = append(pl.Setup, first...)
			for c := 0; c < nc; c++ {
				k := 1 + r.Intn(7)
				var ops []Op
				for j := 0; j < k && total < 24; j++ {
					op := genRegOp(r, poolOnly(pl.Setup))
					if op.K == "remove" && hasTwin(poolOnly(pl.Setup), op.I[0]) {
						op.K = "rmuuid" // which of the two is meant would be open
					}
					ops = append(ops, op)
					total++
				}
				pl.Clients = append(pl.Clients, ops)
			}
			pl.Est = int64(total * 14)
			return pl
		},
		Build: func(e *Env) func() {
			pool := buildPool(e.P.Setup)
			m := sqlnet.NewConnManager()
			var pre []LinOp
			valid := func(op Op) bool {
				n := len(pool.conns)
				switch op.K {
				case "update":
					return op.i(0) < n && op.i(1) < n
				case "add", "remove", "rmuuid", "lookuuid":
					return op.i(0) < n
				}
				return true
			}
			t := int64(-1000)
			for _, o := range e.P.Setup {
				if o.K == "add" && valid(o) {
					in := rIn{o.K, o.i(0), o.i(1)}
					out := pool.apply(m, in)
					pre = append(pre, LinOp{C: -1, Call: t, Ret: t + 1, In: in, Out: out})
					t += 2
				}
			}
			hist := make([][]LinOp, len(e.P.Clients))
			for c := range e.P.Clients {
				e.S.Spawn(func() {
					for _, op := range e.P.Clients[c] {
						if !valid(op) {
							continue
						}
						in := rIn{op.K, op.i(0), op.i(1)}
						call := simrt.Seq()
						simrt.Y(30)
						out := pool.apply(m, in)
						simrt.Y(31)
						hist[c] = append(hist[c], LinOp{C: c, Call: call, Ret: simrt.Seq(), In: in, Out: out})
						e.Logf(c, "%v %v", in, out)
					}
				})
			}
			return func() {
				var all, post []LinOp
				for _, h := range hist {
					all = append(all, h...)
				}
				t := int64(1 << 40)
				obs := func(in rIn) {
					out := pool.apply(m, in)
					post = append(post, LinOp{C: -2, Call: t, Ret: t + 1, In: in, Out: out})
					t += 2
				}
				obs(rIn{k: "conns"})
				seenID := map[uint64]bool{}
				for i := range pool.conns {
					if pool.uid[i] == i {
						obs(rIn{k: "lookuuid", a: i})
					}
					if !seenID[pool.ids[i]] {
						seenID[pool.ids[i]] = true
						obs(rIn{k: "lookid", a: int(pool.ids[i])})
					}
				}
				ok, decided := seqLinearizable(pre, all, post, pool.model(), 400000)
				if !decided {
					e.incon++
					return
				}
				if !ok {
					e.Failf("linearizability", "no sequential order of the registry operations explains the results (connections: %s):%s", pool.describe(), descHistory(append(append(pre, all...), post...)))
				}
			}
		},
	})
}

func poolOnly(setup []Op) []Op {
	var o []Op
	for _, s := range setup {
		if s.K == "conn" {
			o = append(o, s)
		}
	}
	return o
}

func (p *connPool) describe() string {
	var b strings.Builder
	for i := range p.conns {
		fmt.Fprintf(&b, " #%d(id %d, uuid class %d)", i, p.ids[i], p.uid[i])
	}
	return b.String()
}
