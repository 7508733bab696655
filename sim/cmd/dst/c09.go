package main

import (
	"errors"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/cybergarage/go-sqlparser/sql"
	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/query/response/resultset"
	"verif.local/sim/simrt"
)

// ---- a row stream ----

var longKey = strings.Repeat("long key ", 40)

// agRows derives n rows from a seed. Sums of the values are exact in float64.
func agRows(seed, n, spread int) []map[string]any {
	r := simrt.NewRng(uint64(seed)*77777 + 5)
	rows := make([]map[string]any, n)
	gk := []any{"g1", "g2", "g10", "G1", "", nil, "a,b", "a", "b,c", "c", "x y", "1", "日本", "g1 ", " g1", "<nil>", "NULL", "\\N", "a\\", "g1\x00", "g1\n"}
	if seed%5 == 0 {
		gk = []any{" ", "", "  ", nil, "\t", "g1", "g1 ", "g1\t", ",", ",,", "\\,", "\\", longKey + "x", longKey + "y"}
	}
	for i := range rows {
		m := map[string]any{}
		m["g"] = gk[r.Intn(1+spread%len(gk))]
		m["k"] = gk[r.Intn(1+spread%len(gk))]
		if spread >= 50 {
			m["g"] = fmt.Sprint(m["g"], r.Intn(spread))
		}
		m["h"] = r.Intn(1+spread) - 3
		if seed%7 == 0 && r.Bool(200) {
			m["h"] = nil
		}
		switch r.Intn(5) {
		case 0:
			m["a"] = int64(r.Intn(2000) - 1000)
		case 1:
			m["a"] = int32(-r.Intn(50))
		case 2:
			m["a"] = r.Intn(200) - 100
			if r.Bool(100) {
				m["a"] = int64(r.Intn(1<<41)) - 1<<40
			}
		default:
			m["a"] = r.Intn(200) - 100
		}
		if seed%11 == 0 && r.Bool(500) { // sums beyond 32 bits
			m["a"] = 1<<30 + r.Intn(1<<30)
		}
		m["b"] = float64(r.Intn(4000)-2000) / 4
		if r.Bool(60) {
			m["b"] = float64(r.Intn(1<<30)-1<<29) / 1024
		}
		if r.Bool(250) {
			m["c"] = nil
		} else {
			m["c"] = r.Intn(9) + 1
		}
		m["s"] = fmt.Sprintf("text%d", r.Intn(4))
		// numbers in other representations
		switch q := r.Intn(200); r.Intn(9) {
		case 0:
			m["n"] = uint8(q)
		case 1:
			m["n"] = int16(-q)
		case 2:
			m["n"] = float32(q-100) / 8
		case 3:
			m["n"] = uint64(q) << 20
		case 4:
			m["n"] = fmt.Sprint(float64(q-100) / 4)
		case 5:
			m["n"] = int8(q - 100)
		case 6:
			m["n"] = uint32(q)
		default:
			m["n"] = q
		}
		// numbers of any magnitude
		x := math.Ldexp(1+float64(r.Intn(8))/8, r.Intn(2040)-1020)
		switch r.Intn(6) {
		case 0:
			x = math.Inf(1)
		case 1:
			x = math.MaxFloat64
		}
		if sgn := r.Intn(3); sgn == 0 || sgn == 1 && seed%2 == 0 {
			x = -x
		}
		if seed%3 == 0 && math.Abs(x) < 1e19 {
			x = math.Copysign(1e19, x)
		}
		m["e"] = x
		rows[i] = m
	}
	return rows
}

func agFloat(v any) (float64, bool) {
	switch v := v.(type) {
	case nil:
		return 0, true
	case int:
		return float64(v), true
	case int32:
		return float64(v), true
	case int64:
		return float64(v), true
	case float64:
		return v, true
	case int8:
		return float64(v), true
	case int16:
		return float64(v), true
	case uint8:
		return float64(v), true
	case uint32:
		return float64(v), true
	case uint64:
		return float64(v), true
	case float32:
		return float64(v), true
	}
	return 0, false
}

// agIn is the number that a value of a row stands for.
func agIn(v any) (float64, bool) {
	if s, ok := v.(string); ok {
		x, err := strconv.ParseFloat(s, 64)
		return x, err == nil
	}
	return agFloat(v)
}

// agArg picks the argument of an aggregate; sums are over columns where they are exact.
func agArg(r *simrt.Rng, f string) string {
	l := []string{"a", "b", "c", "a", "b", "c", "n"}
	switch strings.ToUpper(f) {
	case "MIN", "MAX", "COUNT":
		l = append(l, "e")
	}
	return l[r.Intn(len(l))]
}

type agFn struct{ name, arg string }

func (f agFn) col() string { return strings.ToUpper(f.name) + "(" + f.arg + ")" }

// refAgg is the reference: one line per group (sorted unless ordered), ok=false when some row cannot be aggregated.
// maybe: a COUNT over a value that is no number may be refused.
func refAgg(fns []agFn, groups []string, rows []map[string]any) (keys [][]any, vals [][]any, ok, maybe bool) {
	ok = true
	type acc struct {
		key []any
		n   int
		sum []float64
		min []float64
		max []float64
	}
	var accs []*acc
	idx := map[string]int{}
	find := func(key []any) *acc {
		id := ""
		for _, k := range key {
			id += fmt.Sprintf("%T|%q;", k, fmt.Sprint(k))
		}
		if i, ok := idx[id]; ok {
			return accs[i]
		}
		a := &acc{key: key, sum: make([]float64, len(fns)), min: make([]float64, len(fns)), max: make([]float64, len(fns))}
		for i := range fns {
			a.min[i], a.max[i] = math.Inf(1), math.Inf(-1)
		}
		idx[id] = len(accs)
		accs = append(accs, a)
		return a
	}
	if len(groups) == 0 {
		find(nil)
	}
	for _, r := range rows {
		var key []any
		for _, g := range groups {
			v, has := r[g]
			if !has {
				return nil, nil, false, false
			}
			key = append(key, v)
		}
		a := find(key)
		a.n++
		for i, f := range fns {
			if f.arg == "*" {
				continue
			}
			v, has := r[f.arg]
			if !has {
				return nil, nil, false, false
			}
			x, num := agIn(v)
			if !num {
				if strings.EqualFold(f.name, "COUNT") {
					maybe = true
					continue
				}
				return nil, nil, false, false
			}
			a.sum[i] += x
			a.min[i] = math.Min(a.min[i], x)
			a.max[i] = math.Max(a.max[i], x)
		}
	}
	for _, a := range accs {
		var vs []any
		for i, f := range fns {
			var v any
			switch strings.ToUpper(f.name) {
			case "SUM":
				v = a.sum[i]
			case "COUNT":
				v = float64(a.n)
			case "AVG":
				if a.n > 0 {
					v = a.sum[i] / float64(a.n)
				}
			case "MIN":
				if a.n > 0 {
					v = a.min[i]
				}
			case "MAX":
				if a.n > 0 {
					v = a.max[i]
				}
			}
			vs = append(vs, v)
		}
		keys = append(keys, a.key)
		vals = append(vals, vs)
	}
	return keys, vals, ok, maybe
}

// agNum shows a value; numbers of all types look alike.
func agNum(v any) string {
	if f, ok := agFloat(v); ok && v != nil {
		return fmt.Sprintf("%v", f)
	}
	if v == nil {
		return "NULL"
	}
	return fmt.Sprintf("%T:%v", v, v)
}

func agLine(vs []any) string {
	var s []string
	for _, v := range vs {
		s = append(s, agNum(v))
	}
	return strings.Join(s, "|")
}

// ---- the faulty source ----

type simSource struct {
	passing bool
	schema  resultset.Schema
	rows    []map[string]any
	pos     int
	faulty  bool
	err     error // injected
	mode    int   // how rows are represented
	read    []int // rows delivered
	closed  int
	nextEnd bool
	again   bool // asked after its end, the source starts over
	buf     map[string]any
	names   []string
}

func (s *simSource) Schema() resultset.Schema { return s.schema }
func (s *simSource) RowsAffected() uint       { return 0 }
func (s *simSource) Close() error             { s.closed++; return nil }

func (s *simSource) Next() bool {
	simrt.Y(41)
	if s.faulty {
		if d := simrt.F("source-delay", len(stalls)); d > 0 {
			simrt.Sleep(stalls[d-1] * 1_000_000)
		}
	}
	if s.pos >= len(s.rows) {
		if s.nextEnd && s.again && len(s.rows) > 0 { // a source that starts over
			s.pos, s.nextEnd = 1, false
			return true
		}
		s.nextEnd = true
		return false
	}
	s.pos++
	return true
}

func (s *simSource) Row() (resultset.Row, error) {
	simrt.Y(42)
	if s.pos == 0 || s.pos > len(s.rows) {
		return nil, errors.New("source misused: no current row")
	}
	if s.faulty && s.err == nil {
		if k := simrt.F("source-row-error", nErrKinds); k > 0 {
			s.err = anyErr(k, fmt.Sprintf("injected read error at row %d", s.pos-1))
			s.passing = k%2 == 0
			return nil, s.err
		}
	}
	if s.err != nil && !s.passing { // a passing failure hits one read only
		return nil, s.err
	}
	if n := len(s.read); n == 0 || s.read[n-1] != s.pos-1 {
		s.read = append(s.read, s.pos-1)
	}
	m := s.rows[s.pos-1]
	switch s.mode {
	case 0: // a fresh map per row
		c := map[string]any{}
		for k, v := range m {
			c[k] = v
		}
		return resultset.NewRow(resultset.WithRowObject(c)), nil
	case 1: // one map, overwritten for every row
		if s.buf == nil {
			s.buf = map[string]any{}
		}
		for k := range s.buf {
			delete(s.buf, k)
		}
		for k, v := range m {
			s.buf[k] = v
		}
		return resultset.NewRow(resultset.WithRowObject(s.buf)), nil
	default: // values in schema order
		var vs []any
		for _, n := range s.names {
			vs = append(vs, m[n])
		}
		return resultset.NewRow(resultset.WithRowSchema(s.schema), resultset.WithRowValues(vs)), nil
	}
}

var agNames = []string{"g", "k", "h", "a", "b", "c", "s", "n", "e"}

func agTable() query.Schema {
	var cs query.Columns
	for _, n := range agNames {
		t := query.DoubleType
		if n == "g" || n == "k" || n == "s" {
			t = query.TextType
		}
		cs = append(cs, query.NewColumnWithOptions(query.WithColumnName(n), query.WithColumnData(query.NewDataDef(t, -1))))
	}
	return query.NewSchemaWith("t", query.WithSchemaColumns(cs))
}

// agStmt is a statement of the pool: selectors, group column.
type agStmt struct {
	sel   []string // "g" or "SUM(a)"
	fns   []agFn
	group string
	bad   string // "" or why it must be refused
	sels  query.Selectors
	gb    query.GroupBy
	text  string
}

func agStmtFrom(o Op) *agStmt {
	s := &agStmt{group: o.s(0), sel: o.S[1:]}
	for _, x := range s.sel {
		if i := strings.IndexByte(x, '('); i > 0 {
			f := agFn{x[:i], strings.TrimSuffix(x[i+1:], ")")}
			if strings.EqualFold(f.name, "ABS") {
				s.bad = "a scalar function among the aggregates"
			}
			s.fns = append(s.fns, f)
			s.sels = append(s.sels, fn.NewFunction(fn.WithFunctionName(f.name), fn.WithFunctionArguments(fn.NewArgumentWith(f.arg))))
		} else {
			if x == "nosuch" {
				s.bad = "an unknown column"
			}
			s.sels = append(s.sels, query.NewColumnWithName(x))
		}
	}
	if s.group != "" {
		s.gb = query.NewGroupByWith(s.group)
	} else if o.i(0) == 1 {
		s.gb = query.NewGroupBy()
	}
	s.text = "SELECT " + strings.Join(s.sel, ", ") + " FROM t"
	if s.group != "" {
		s.text += " GROUP BY " + s.group
	}
	if o.i(1) == 1 { // through the parser
		sts, err := sql.NewParser().ParseString(s.text)
		if err != nil || len(sts) != 1 {
			panic(fmt.Sprintf("harness: %q: %v", s.text, err))
		}
		q := sts[0].(query.Select)
		s.sels = q.Selectors()
		s.gb = q.GroupBy()
	}
	return s
}

// genAgStmt makes a statement op.
func genAgStmt(r *simrt.Rng, badness, parsed int) Op {
	aggr := []string{"COUNT", "SUM", "AVG", "MIN", "MAX", "sum", "Count"}
	group := []string{"", "", "g", "g", "h", "k"}[r.Intn(6)]
	var sel []string
	n := 1 + r.Intn(4)
	for i := 0; i < n; i++ {
		f := aggr[r.Intn(len(aggr))]
		arg := agArg(r, f)
		if strings.EqualFold(f, "COUNT") {
			switch r.Intn(4) {
			case 0, 1:
				arg = "*"
			}
		}
		sel = append(sel, f+"("+arg+")")
	}
	if group != "" && r.Bool(700) {
		at := 0
		if r.Bool(400) {
			at = r.Intn(len(sel) + 1)
		}
		sel = append(sel[:at:at], append([]string{group}, sel[at:]...)...)
	}
	if r.Bool(badness) {
		b := []string{"ABS(a)", "nosuch"}[r.Intn(2)]
		at := r.Intn(len(sel) + 1)
		sel = append(sel[:at:at], append([]string{b}, sel[at:]...)...)
	}
	gi, pa := 0, 0
	if r.Bool(300) {
		gi = 1
	}
	if r.Bool(parsed) {
		pa = 1
	}
	return Op{K: "conn", I: []int{gi, pa}, S: append([]string{group}, sel...)}
}

// agBreak makes row pos unusable.
func agBreak(rows []map[string]any, pos, kind int) {
	if len(rows) == 0 || pos < 0 {
		return
	}
	m := rows[pos%len(rows)]
	col := []string{"a", "b", "c"}[kind%3]
	if kind >= 6 { // an empty object
		clear(m)
	} else if kind >= 3 {
		delete(m, col)
	} else {
		m[col] = "not a number"
	}
}

// runAgRS aggregates through a result set and checks the outcome.
func runAgRS(e *Env, c int, st *agStmt, tbl query.Schema, rows []map[string]any, mode int, faulty, again bool) {
	rsSchema := resultset.NewSchema(resultset.WithSchemaDatabaseName("db"), resultset.WithSchemaTableName("t"), resultset.WithSchemaColumns(resultset.NewColumnsFrom(tbl.Columns())))
	src := &simSource{schema: rsSchema, rows: rows, faulty: faulty, again: again, mode: mode, names: agNames}
	rs, err := resultset.NewAggregatedResultSetFrom(
		resultset.WithAggregatedResultSetTableSchema(tbl),
		resultset.WithAggregatedResultSetSelectors(st.sels),
		resultset.WithAggregatedResultSetSource(src),
		resultset.WithAggregatedResultSetGroupBy(st.gb))
	groups := []string{}
	if st.group != "" {
		groups = append(groups, st.group)
	}
	what := fmt.Sprintf("client %d, %q over %d rows", c, st.text, len(rows))
	if err != nil {
		e.Logf(c, "%s: error %v", st.text, err)
		if rs != nil {
			e.Failf("result-with-error", "%s: both a result and the error %v", what, err)
		}
	}
	if src.err != nil {
		e.Probe("source-failed")
		if err == nil {
			e.Failf("lost-error", "%s: the source failed with %q but the aggregation gave a result", what, src.err)
		} else if !errors.Is(err, src.err) && st.bad == "" {
			e.Failf("other-error", "%s: the source failed with %q but the aggregation reports %v", what, src.err, err)
		}
		return
	}
	if st.bad != "" {
		if err == nil {
			e.Failf("accepted", "%s: accepted although it has %s", what, st.bad)
		}
		return
	}
	if mode == 2 { // a missing column reads as NULL from values in schema order
		fixed := make([]map[string]any, len(rows))
		for i, m := range rows {
			fixed[i] = map[string]any{}
			for _, n := range agNames {
				fixed[i][n] = m[n]
			}
		}
		rows = fixed
	}
	keys, vals, ok, maybe := refAgg(st.fns, groups, rows)
	if !ok {
		e.Probe("malformed-row")
		if err == nil {
			e.Failf("malformed", "%s: a row cannot be aggregated but a result was given", what)
		}
		return
	}
	if err != nil {
		if !maybe {
			e.Failf("spurious-error", "%s: %v although all rows are good", what, err)
		}
		return
	}
	for i, p := range src.read {
		if p != i {
			e.Failf("reading", "%s: rows were read in the order %v", what, src.read)
			return
		}
	}
	if len(src.read) != len(rows) || !src.nextEnd {
		e.Failf("reading", "%s: only %d rows were read", what, len(src.read))
		return
	}
	var want []string
	for i := range vals {
		var l []any
		k := 0
		for _, x := range st.sel {
			if strings.IndexByte(x, '(') > 0 {
				l = append(l, vals[i][k])
				k++
			} else if x == st.group {
				l = append(l, keys[i][0])
			} else {
				l = append(l, nil)
			}
		}
		want = append(want, agLine(l))
	}
	got := []string{}
	for rs.Next() {
		row, err := rs.Row()
		if err != nil {
			e.Failf("row-error", "%s: result row: %v", what, err)
			return
		}
		vs := row.Values()
		got = append(got, agLine(vs))
		for i, col := range rs.Schema().Columns() {
			v, err := row.ValueBy(col.Name())
			if err != nil || i >= len(vs) || agNum(v) != agNum(vs[i]) {
				e.Failf("row-access", "%s: ValueBy(%s)=%v,%v but Values()=%v", what, col.Name(), v, err, vs)
				return
			}
		}
	}
	var names []string
	for _, col := range rs.Schema().Columns() {
		names = append(names, col.Name())
	}
	var wn []string
	for _, x := range st.sel {
		if i := strings.IndexByte(x, '('); i > 0 {
			x = strings.ToUpper(x[:i]) + x[i:]
		}
		wn = append(wn, x)
	}
	if fmt.Sprint(names) != fmt.Sprint(wn) {
		e.Failf("columns", "%s: result columns %q, want %q", what, names, wn)
	}
	sort.Strings(got)
	sort.Strings(want)
	e.Logf(c, "%s: %q", st.text, got)
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		e.Failf("value", "%s: got %q, want %q", what, got, want)
	}
}

// runAgDirect feeds aggregators directly. I: seed n spread nameMask arg groups feed order breakPos breakKind
func runAgDirect(e *Env, c int, o Op, shared []fn.AggregatorOption) {
	names := []string{}
	for i, n := range []string{"SUM", "AVG", "MIN", "MAX", "COUNT"} {
		if o.i(3)&(1<<i) != 0 {
			names = append(names, n)
		}
	}
	if len(names) == 0 {
		names = []string{"SUM"}
	}
	ai, gi := o.i(4), o.i(5)
	if o.i(6)&32 != 0 {
		ai, gi = e.P.cfg("arg"), e.P.cfg("group")
	}
	arg, groups := agArgs[ai%len(agArgs)], agGroups[gi%len(agGroups)]
	if ai == 3 && o.i(6)&32 == 0 && o.i(3)&3 == 0 && o.i(3) != 0 {
		arg = "e" // minimum, maximum and count only
	}
	args := []string{arg}
	if o.i(10) > 0 && o.i(6)&32 == 0 {
		args = append(args, []string{"a", "b", "c"}[o.i(10)%3])
	}
	order := []fn.OrderBy{fn.OrderByNone, fn.OrderByAsc, fn.OrderByDesc}[o.i(7)%3]
	rows := agRows(o.i(0), o.i(1), o.i(2))
	what := fmt.Sprintf("client %d, %v%s by %v of %d rows", c, names, args, groups, len(rows))
	opts := make([]fn.AggregatorOption, 0, 4)
	opts = append(opts, fn.WithAggregatorArguments(args), fn.WithAggregatorGroupBys(groups...))
	if o.i(6)&32 != 0 {
		opts = shared
	}
	set, err := fn.NewAggregatorSetForNames(names, opts...)
	if err != nil {
		e.Failf("new", "%s: %v", what, err)
		return
	}
	for round := 0; round < 2; round++ {
		if round == 1 || o.i(6)&8 != 0 {
			var ro []any
			switch (o.i(6) >> 4) & 1 {
			case 0:
				ro = append(ro, groups)
			}
			if err := set.Reset(ro...); err != nil {
				e.Failf("reset", "%s: Reset: %v", what, err)
				return
			}
		}
		in := rows
		broken := -1
		if round == 0 && o.i(8) >= 0 && len(rows) > 0 {
			broken = o.i(8) % len(rows)
			simrt.Count("malformed-row")
		}
		buf := make([]any, len(groups)+len(args))
		bm := map[string]any{}
		failed := false
		for i, m := range in {
			vals := []any{}
			for _, g := range groups {
				vals = append(vals, m[g])
			}
			for _, a := range args {
				vals = append(vals, m[a])
			}
			if i == broken {
				switch o.i(9) % 3 {
				case 0:
					vals[len(vals)-1] = "not a number"
				case 1:
					vals = vals[:len(vals)-1]
				default:
					vals = append(vals, 1)
				}
			}
			var v any
			useMap := o.i(6)&3 == 1 || o.i(6)&3 == 3
			switch {
			case useMap && i != broken:
				for k := range bm {
					delete(bm, k)
				}
				for k, x := range m {
					bm[k] = x
				}
				v = bm
				if o.i(6)&3 == 3 {
					v = fn.Map(bm)
				}
			case o.i(6)&4 != 0 && i != broken: // one buffer for all rows
				copy(buf, vals)
				v = buf
				if o.i(6)&3 == 2 {
					v = fn.Row(buf)
				}
			default:
				v = vals
				if o.i(6)&3 == 2 {
					v = fn.Row(vals)
				}
			}
			err := set.Aggregate(v)
			simrt.Y(43)
			if i == broken {
				onlyCount := len(names) == 1 && names[0] == "COUNT" && o.i(9)%3 == 0
				if err == nil && !onlyCount {
					e.Failf("malformed", "%s: row %v was accepted", what, v)
					return
				}
				failed = true
				break
			}
			if err != nil {
				e.Failf("spurious-error", "%s: row %v: %v", what, v, err)
				return
			}
		}
		for i := range buf {
			buf[i] = "overwritten"
		}
		if failed {
			continue // start over
		}
		keys, _, _, _ := refAgg(nil, groups, in)
		var fns []agFn
		for _, n := range names {
			for _, a := range args {
				fns = append(fns, agFn{n, a})
			}
		}
		keys, vals, _, _ := refAgg(fns, groups, in)
		lines := func(sel []int) []string {
			var w []string
			for i := range keys {
				l := append([]any{}, keys[i]...)
				for _, k := range sel {
					l = append(l, vals[i][k])
				}
				w = append(w, agLine(l))
			}
			return w
		}
		read := func(rs fn.ResultSet, width int) ([]string, bool) {
			var got []string
			for rs.Next() {
				row, err := rs.Row()
				if err != nil {
					e.Failf("row-error", "%s: %v", what, err)
					return nil, false
				}
				got = append(got, agLine(row))
				if len(rs.Columns()) != width {
					e.Failf("columns", "%s: result columns %q for rows of %d values", what, rs.Columns(), width)
					return nil, false
				}
				// two aggregates of one name cannot both be in a map, but these have distinct names
				m, err := rs.Map()
				if err != nil {
					e.Failf("row-error", "%s: Map: %v", what, err)
					return nil, false
				}
				for i, cn := range rs.Columns() {
					if agNum(m[cn]) != agNum(row[i]) {
						e.Failf("columns", "%s: Map()[%s]=%v but the row is %v", what, cn, m[cn], row)
						return nil, false
					}
				}
			}
			return got, true
		}
		// every aggregator by itself, in the requested order
		for k, a := range set {
			rs, err := a.Finalize(order)
			if err != nil {
				e.Failf("finalize", "%s: %s: %v", what, a.Name(), err)
				return
			}
			got, ok := read(rs, len(groups)+len(args))
			if !ok {
				return
			}
			var own []int
			for z := range args {
				own = append(own, k*len(args)+z)
			}
			want := lines(own)
			sameAs(e, c, what+" "+a.Name(), got, want, keys, order)
		}
		// the whole set
		rs, err := set.Finalize()
		if err != nil {
			e.Failf("finalize", "%s: set: %v", what, err)
			return
		}
		got, ok := read(rs, len(groups)+len(fns))
		if !ok {
			return
		}
		all := []int{}
		for k := range fns {
			all = append(all, k)
		}
		sameAs(e, c, what, got, lines(all), keys, fn.OrderByNone)
		// and again
		rs2, err := set.Finalize()
		if err != nil {
			e.Failf("finalize", "%s: second Finalize: %v", what, err)
			return
		}
		got2, ok := read(rs2, len(groups)+len(fns))
		if ok && strings.Join(got, "\n") != strings.Join(got2, "\n") {
			e.Failf("unstable", "%s: finalizing twice gives %q and then %q", what, got, got2)
		}
	}
}

// keyLess orders group keys (all keys of a position have one type); nulls come first or last.
func keyLess(a, b []any, nullsLast bool) bool {
	for i := range a {
		if a[i] == nil || b[i] == nil {
			if a[i] == nil && b[i] == nil {
				continue
			}
			return (a[i] == nil) != nullsLast
		}
		switch x := a[i].(type) {
		case string:
			y := b[i].(string)
			if x != y {
				return x < y
			}
		case int:
			y := b[i].(int)
			if x != y {
				return x < y
			}
		case float64:
			y := b[i].(float64)
			if x != y {
				return x < y
			}
		}
	}
	return false
}

func sameAs(e *Env, c int, what string, got, want []string, keys [][]any, order fn.OrderBy) {
	idx := make([]int, len(keys))
	for i := range idx {
		idx[i] = i
	}
	if order != fn.OrderByNone {
		sorted := func(nullsLast bool) []string {
			sort.SliceStable(idx, func(i, j int) bool {
				if order == fn.OrderByAsc {
					return keyLess(keys[idx[i]], keys[idx[j]], nullsLast)
				}
				return keyLess(keys[idx[j]], keys[idx[i]], nullsLast)
			})
			var w []string
			for _, i := range idx {
				w = append(w, want[i])
			}
			return w
		}
		w := sorted(false)
		e.Logf(c, "%s: %q", what, got)
		if all := strings.Join(got, "\n"); all != strings.Join(w, "\n") && all != strings.Join(sorted(true), "\n") {
			gs, ws := append([]string{}, got...), append([]string{}, w...)
			sort.Strings(gs)
			sort.Strings(ws)
			if strings.Join(gs, "\n") == strings.Join(ws, "\n") {
				e.Failf("order", "%s: order %d requested: got %q, want %q", what, order, got, w)
			} else {
				e.Failf("value", "%s: got %q, want %q", what, got, w)
			}
		}
		return
	}
	gs, ws := append([]string{}, got...), append([]string{}, want...)
	sort.Strings(gs)
	sort.Strings(ws)
	e.Logf(c, "%s: %q", what, gs)
	if strings.Join(gs, "\n") != strings.Join(ws, "\n") {
		e.Failf("value", "%s: got %q, want %q", what, gs, ws)
	}
}

var (
	agArgs   = []string{"a", "b", "c", "n"}
	agGroups = [][]string{{}, {"g"}, {"h"}, {"g", "k"}, {"h", "g"}, {"b"}}
)

// agShared makes the option list that clients share, with spare capacity.
func agShared(e *Env) []fn.AggregatorOption {
	opts := make([]fn.AggregatorOption, 0, 8)
	return append(opts, fn.WithAggregatorArguments([]string{agArgs[e.P.cfg("arg")%len(agArgs)]}), fn.WithAggregatorGroupBys(agGroups[e.P.cfg("group")%len(agGroups)]...))
}

// agSize gives the number of rows and the spread of group keys.
func agSize(r *simrt.Rng) (int, int) {
	if r.Bool(6) {
		n, sp := bigN(r), []int{0, 5, 11, 83, 203}[r.Intn(5)]
		if sp > 50 {
			n = min(n, 70+r.Intn(70))
		}
		return n, sp
	}
	return r.Intn(14), r.Intn(21)
}

func genDirect(r *simrt.Rng, bad int) Op {
	bp := -1
	if r.Bool(bad) {
		bp = r.Intn(12)
	}
	n, sp := agSize(r)
	return Op{K: "direct", I: []int{r.Intn(1 << 20), n, sp, r.Intn(32), r.Intn(4), r.Intn(6), r.Intn(64), r.Intn(3), bp, r.Intn(3), max(0, r.Intn(13)-9)}}
}

func init() {
	register(&Prop{
		ID: "C09", Quick: 60000, Thorough: 3000000, MaxSteps: 6000000,
		Rule: "1-3 clients aggregate generated row streams with 1-3 shared statements (1-4 aggregates, optionally grouped, some ill-formed) through result sets whose source delays and fails at scheduler-chosen rows and delivers malformed rows, or feed aggregators directly (rows, maps, reused buffers, Reset between rounds); outcomes are compared with a reference aggregation; every failed aggregation is repeated over a healthy source",
		Real: "sql/fn, sql/query/response/resultset, sql/query", Stub: "row source",
		Gen: func(r *simrt.Rng) *Plan {
			pl := &Plan{MapSeed: r.U64(), Rate: []int{0, 30, 120, 300}[r.Intn(4)], Cfg: map[string]int{"arg": r.Intn(4), "group": r.Intn(6)}}
			ns := 1 + r.Intn(3)
			for i := 0; i < ns; i++ {
				pl.Setup = append(pl.Setup, genAgStmt(r, 80, 10))
			}
			nc := 1 + r.Intn(3)
			for c := 0; c < nc; c++ {
				var ops []Op
				for j := 0; j <= r.Intn(3); j++ {
					if r.Bool(350) {
						ops = append(ops, genDirect(r, 300))
						continue
					}
					bp := -1
					if r.Bool(200) {
						bp = r.Intn(12)
					}
					n, sp := agSize(r)
					if n > 14 && bp >= 0 {
						bp = r.Intn(n)
					}
					ops = append(ops, Op{K: "rs", I: []int{r.Intn(ns), r.Intn(1 << 20), n, sp, bp, r.Intn(7), r.Intn(3), r.Intn(4)}})
				}
				pl.Clients = append(pl.Clients, ops)
			}
			pl.Est = int64(nc * 150)
			return pl
		},
		Build: func(e *Env) func() {
			var sts []*agStmt
			for _, o := range e.P.Setup {
				sts = append(sts, agStmtFrom(o))
			}
			tbl := agTable()
			shared := agShared(e)
			for c := range e.P.Clients {
				e.S.Spawn(func() {
					for _, o := range e.P.Clients[c] {
						if o.K == "direct" {
							runAgDirect(e, c, o, shared)
							continue
						}
						st := sts[o.i(0)]
						rows := agRows(o.i(1), o.i(2), o.i(3))
						agBreak(rows, o.i(4), o.i(5))
						if o.i(4) >= 0 && len(rows) > 0 {
							simrt.Count("malformed-row")
						}
						runAgRS(e, c, st, tbl, rows, o.i(6), true, o.i(7) == 1)
						runAgRS(e, c, st, tbl, agRows(o.i(1), o.i(2), o.i(3)), o.i(6), false, o.i(7) == 1)
					}
				})
			}
			return func() {}
		},
	})
	register(&Prop{
		ID: "C10", Quick: 60000, Thorough: 3000000, MaxSteps: 6000000,
		Rule: "every iteration over a hash map in the code follows a scheduler-chosen permutation; 1-2 clients run grouped aggregations with several aggregates and permuted arrival orders, ordered finalisations, row/schema derivations and data type lookups; results are compared with a reference and with each other",
		Real: "sql/fn, sql/query/response/resultset, sql/query", Stub: "row source; map iteration order (permuted by the simulator)",
		Gen: func(r *simrt.Rng) *Plan {
			pl := &Plan{MapSeed: r.U64() | 1, Cfg: map[string]int{"arg": r.Intn(4), "group": r.Intn(6)}}
			ns := 1 + r.Intn(2)
			for i := 0; i < ns; i++ {
				o := genAgStmt(r, 0, 5)
				pl.Setup = append(pl.Setup, o)
			}
			nc := 1 + r.Intn(2)
			for c := 0; c < nc; c++ {
				var ops []Op
				for j := 0; j <= 1+r.Intn(3); j++ {
					switch r.Intn(6) {
					case 0, 1:
						ops = append(ops, genDirect(r, 0))
					case 2:
						n, sp := agSize(r)
						if n < 14 {
							n, sp = r.Intn(20), 4+r.Intn(8)
						}
						ops = append(ops, Op{K: "rs", I: []int{r.Intn(ns), r.Intn(1 << 20), n, sp, r.Intn(1 << 20), 0, r.Intn(3)}})
					case 3:
						ops = append(ops, Op{K: "row", I: []int{r.Intn(1 << 20), c10Size(r)}})
					case 4:
						ops = append(ops, Op{K: "schema", I: []int{r.Intn(1 << 20), c10Size(r)}})
					case 5:
						ops = append(ops, Op{K: "type", I: []int{r.Intn(1 << 20)}})
					}
				}
				pl.Clients = append(pl.Clients, ops)
			}
			pl.Est = int64(nc * 150)
			return pl
		},
		Build: func(e *Env) func() {
			var sts []*agStmt
			for _, o := range e.P.Setup {
				sts = append(sts, agStmtFrom(o))
			}
			tbl := agTable()
			shared := agShared(e)
			for c := range e.P.Clients {
				e.S.Spawn(func() {
					for _, o := range e.P.Clients[c] {
						switch o.K {
						case "direct":
							runAgDirect(e, c, o, shared)
						case "rs":
							st := sts[o.i(0)]
							rows := agRows(o.i(1), o.i(2), o.i(3))
							runAgRS(e, c, st, tbl, rows, o.i(6), false, false)
							pr := simrt.NewRng(uint64(o.i(4)))
							for i := len(rows) - 1; i > 0; i-- {
								k := pr.Intn(i + 1)
								rows[i], rows[k] = rows[k], rows[i]
							}
							runAgRS(e, c, st, tbl, rows, o.i(6), false, false)
						case "row":
							c10Row(e, c, o)
						case "schema":
							c10Schema(e, c, o)
						case "type":
							c10Type(e, c, o)
						}
					}
				})
			}
			return func() {}
		},
	})
}

func c10Size(r *simrt.Rng) int {
	if r.Bool(40) {
		return 9 + r.Intn(40)
	}
	return 1 + r.Intn(8)
}

// c10Obj builds the same object with a varying insertion history.
func c10Obj(seed, n, hist int) (map[string]any, []string) {
	r := simrt.NewRng(uint64(seed) + 11)
	var names []string
	vals := []any{}
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("%c%d", 'a'+r.Intn(26), i)
		if i > 0 && r.Bool(100) && strings.ToUpper(names[i-1]) != names[i-1] {
			name = strings.ToUpper(names[i-1]) // names that differ in case only
		}
		if seed%6 == 0 { // names that are numbers, or nearly
			name = []string{"", "0", "00", " ", "-"}[r.Intn(5)] + fmt.Sprint(i) + []string{"", "", ".0", "e0"}[r.Intn(4)]
			if k := i - 1; i > 0 && r.Bool(300) && names[k][0] != '0' {
				name = "0" + names[k]
			}
		}
		names = append(names, name)
		vals = append(vals, []any{int8(1), int16(2), int32(3), int64(4), 5, float32(1.5), 2.5, true, "x", []byte("y")}[r.Intn(10)])
	}
	m := map[string]any{}
	h := simrt.NewRng(uint64(hist))
	for i := 0; i < h.Intn(20); i++ {
		m[fmt.Sprintf("tmp%d", i)] = i
	}
	for i := range names {
		k := (i + hist) % len(names)
		m[names[k]] = vals[k]
	}
	for k := range m {
		if strings.HasPrefix(k, "tmp") {
			delete(m, k)
		}
	}
	return m, names
}

func c10Row(e *Env, c int, o Op) {
	var first string
	for hist := 0; hist < 3; hist++ {
		m, names := c10Obj(o.i(0), o.i(1), hist)
		row := resultset.NewRow(resultset.WithRowObject(m))
		vs := row.Values()
		got := fmt.Sprintf("%T%v", vs, vs)
		if hist == 0 {
			first = got
		} else if got != first {
			e.Failf("row-order", "client %d: values of the same row object are %s and %s", c, first, got)
			return
		}
		if len(vs) != len(m) {
			e.Failf("row-values", "client %d: %d values for %d fields", c, len(vs), len(m))
			return
		}
		// with a schema the columns decide
		var cols []resultset.Column
		for _, n := range names {
			cols = append(cols, resultset.NewColumn(resultset.WithColumnName(n)))
		}
		sc := resultset.NewSchema(resultset.WithSchemaColumns(cols))
		vs = resultset.NewRow(resultset.WithRowSchema(sc), resultset.WithRowObject(m)).Values()
		for i, n := range names {
			if i >= len(vs) || showVal(vs[i]) != showVal(m[n]) {
				e.Failf("row-schema", "client %d: value %d of a row with columns %q of %v is not that of %s: %v", c, i, names, m, n, vs)
				return
			}
		}
	}
	e.Logf(c, "row %s", first)
}

func c10Schema(e *Env, c int, o Op) {
	var first string
	for hist := 0; hist < 3; hist++ {
		m, names := c10Obj(o.i(0), o.i(1), hist)
		sc, err := resultset.NewSchemaFrom(resultset.WithSchemaRowObject(m))
		if err != nil {
			e.Failf("schema", "client %d: schema of %v: %v", c, m, err)
			return
		}
		var s []string
		for _, col := range sc.Columns() {
			want, _ := query.NewDataTypeForValue(m[col.Name()])
			if col.DataType() != want {
				e.Failf("schema-type", "client %d: column %s of %v has type %v", c, col.Name(), m, col.DataType())
			}
			s = append(s, col.Name()+" "+col.DataType().String())
			if l, err := sc.LookupColumn(col.Name()); err != nil || l.Name() != col.Name() {
				e.Failf("schema-lookup", "client %d: LookupColumn(%s): %v", c, col.Name(), err)
			}
		}
		if len(s) != len(names) {
			e.Failf("schema", "client %d: schema of %v has the columns %v", c, m, s)
			return
		}
		got := strings.Join(s, ",")
		if hist == 0 {
			first = got
		} else if got != first {
			e.Failf("schema-order", "client %d: the same row object gives the columns %s and %s", c, first, got)
			return
		}
	}
	e.Logf(c, "schema %s", first)
}

var typeNames = []struct {
	n string
	t query.DataType
}{
	{"BIGINT", query.BigIntType}, {"BINARY", query.BinaryType}, {"BIT", query.BitType}, {"BLOB", query.BlobType}, {"BOOLEAN", query.BooleanType},
	{"CHAR", query.CharType}, {"CHARACTER", query.CharacterType}, {"CLOB", query.ClobType}, {"DATE", query.DateType}, {"DATETIME", query.DateTimeType},
	{"DECIMAL", query.DecimalType}, {"DOUBLE", query.DoubleType}, {"DOUBLE PRECISION", query.DoublePrecisionType}, {"DOUBLEPRECISION", query.DoublePrecisionType},
	{"FLOAT", query.FloatType}, {"INT", query.IntType}, {"INTEGER", query.IntegerType}, {"LONGBLOB", query.LongBlobType}, {"LONGTEXT", query.LongTextType},
	{"MEDIUMBLOB", query.MediumBlobType}, {"MEDIUMINT", query.MediumIntType}, {"MEDIUMTEXT", query.MediumTextType}, {"NUMERIC", query.NumericType},
	{"REAL", query.RealType}, {"SET", query.SetType}, {"SMALLINT", query.SmallIntType}, {"TEXT", query.TextType}, {"TIME", query.TimeType},
	{"TIMESTAMP", query.TimeStampType}, {"TINYBLOB", query.TinyBlobType}, {"TINYINT", query.TinyIntType}, {"TINYTEXT", query.TinyTextType},
	{"VARBINARY", query.VarBinaryType}, {"VARCHAR", query.VarCharType}, {"VARCHARACTER", query.VarCharacterType}, {"YEAR", query.YearType},
	{"SERIAL", query.SerialType}, {"BIGSERIAL", query.BigSerialType}, {"SMALLSERIAL", query.SmallSerialType},
}

func c10Type(e *Env, c int, o Op) {
	r := simrt.NewRng(uint64(o.i(0)))
	for i := 0; i < 4; i++ {
		x := typeNames[r.Intn(len(typeNames))]
		n := x.n
		switch r.Intn(3) {
		case 0:
			n = strings.ToLower(n)
		case 1:
			n = strings.ToUpper(n[:1]) + strings.ToLower(n[1:])
		}
		var a any = n
		if r.Bool(300) {
			a = []byte(n)
		}
		t, err := query.NewDataTypeFrom(a)
		e.Logf(c, "type %s %d", n, t)
		if err != nil || t != x.t {
			e.Failf("type", "client %d: data type name %q is %v (%v), want %v", c, n, t, err, x.t)
		}
		bad := n + "X"
		if t, err := query.NewDataTypeFrom(bad); err == nil {
			e.Failf("type", "client %d: data type name %q is accepted as %v", c, bad, t)
		}
	}
}
