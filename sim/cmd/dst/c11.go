package main

import (
	"errors"
	"fmt"
	"maps"
	"math"
	"strings"

	sqlerrors "github.com/cybergarage/go-sqlparser/sql/errors"
	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/query/response/resultset"
	"verif.local/sim/simrt"
)

func c11Uint(i int) uint {
	switch i {
	case -1:
		return math.MaxUint
	case -2:
		return math.MaxUint - 3
	case -3:
		return 1 << 63
	}
	return uint(i)
}

// c11Stored makes the shared rows: objects, values with a schema, or values alone.
func c11Stored(kind, seed, n int, tbl query.Schema) ([]resultset.Row, []map[string]any) {
	objs := agRows(seed, n, 6)
	sc := resultset.NewSchema(resultset.WithSchemaColumns(resultset.NewColumnsFrom(tbl.Columns())))
	rows := make([]resultset.Row, n)
	if kind == 12 { // through the result set's own conversion; some rows lack fields
		for _, m := range objs {
			c11Sparse(seed, m)
		}
		if rs, err := resultset.NewRowsFromMapRows(objs); err == nil && seed%2 == 0 {
			return rs, objs
		}
		return nil, objs
	}
	for i, m := range objs {
		switch (kind + i*(kind/4)) % 3 {
		case 0:
			rows[i] = resultset.NewRow(resultset.WithRowObject(m))
		case 1:
			var vs []any
			for _, name := range agNames {
				vs = append(vs, m[name])
			}
			rows[i] = resultset.NewRow(resultset.WithRowSchema(sc), resultset.WithRowValues(vs))
		default:
			if seed%2 == 0 { // further fields, called like functions
				m = maps.Clone(m)
				m["ABS"], m["FLOOR"], m["PI"] = i+1000, "floor", nil
			}
			rows[i] = resultset.NewRow(resultset.WithRowSchema(sc), resultset.WithRowObject(m))
		}
	}
	return rows, objs
}

// c11Sparse takes fields out of a row.
func c11Sparse(seed int, m map[string]any) {
	r := simrt.NewRng(uint64(seed) + uint64(len(fmt.Sprint(m["a"], m["b"])))*31)
	all := r.Bool(300)
	for _, n := range agNames {
		if all || r.Bool(300) {
			delete(m, n)
		}
	}
}

// c11Eval is what a column of a projection yields for a row.
func c11Eval(col string, m map[string]any) (any, bool) {
	i := strings.IndexByte(col, '(')
	if i < 0 {
		return m[col], true
	}
	arg := strings.TrimSuffix(col[i+1:], ")")
	v, ok := agFloat(m[arg])
	if m[arg] == nil {
		ok = false
	}
	switch col[:i] {
	case "ABS":
		return math.Abs(v), ok
	case "FLOOR":
		return math.Floor(v), ok
	case "SQRT":
		return math.Sqrt(v), ok && v > 0
	case "PI":
		return math.Pi, true
	}
	panic("harness: " + col)
}

func c11Schema(cols []string, tbl query.Schema) resultset.Schema {
	var sel query.Selectors
	for _, c := range cols {
		if i := strings.IndexByte(c, '('); i >= 0 {
			var args []fn.Argument
			if a := strings.TrimSuffix(c[i+1:], ")"); a != "" {
				args = append(args, fn.NewArgumentWith(a))
			}
			sel = append(sel, fn.NewFunction(fn.WithFunctionName(c[:i]), fn.WithFunctionArguments(args...)))
		} else {
			sel = append(sel, query.NewColumnWithName(c))
		}
	}
	sc, err := resultset.NewSchemaFrom(resultset.WithSchemaDatabaseName("db"), resultset.WithSchemaTableSchema(tbl), resultset.WithSchemaSelectors(sel))
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	return sc
}

// c11Table is a table of the same name and column names; its columns have other types.
func c11Table(variant int) query.Schema {
	types := []query.DataType{query.DoubleType, query.TextType, query.IntegerType, query.FloatType, query.BigIntType}
	var cs query.Columns
	for i, n := range agNames {
		cs = append(cs, query.NewColumnWithOptions(query.WithColumnName(n), query.WithColumnData(query.NewDataDef(types[(i*(variant+1)+variant)%len(types)], -1))))
	}
	return query.NewSchemaWith("t", query.WithSchemaColumns(cs))
}

// c11SchemaWrong says what is wrong with the schema made from a table and selectors.
func c11SchemaWrong(sc resultset.Schema, cols []string, tbl query.Schema) string {
	if sc.DatabaseName() != "db" || sc.TableName() != "t" {
		return fmt.Sprintf("it names %s.%s", sc.DatabaseName(), sc.TableName())
	}
	cs := sc.Columns()
	if len(cs) != len(cols) {
		return fmt.Sprintf("it has %d columns", len(cs))
	}
	for i, c := range cs {
		f, isf := c.Function()
		if j := strings.IndexByte(cols[i], '('); j >= 0 {
			if !isf || f.Name() != cols[i][:j] || c.Name() != cols[i] {
				return fmt.Sprintf("column %d is %s, function %v", i, c.Name(), isf)
			}
			continue
		}
		if isf || c.Name() != cols[i] {
			return fmt.Sprintf("column %d is %s, function %v", i, c.Name(), isf)
		}
		tc, err := tbl.LookupColumn(cols[i])
		if err != nil || c.DataType() != tc.DataType() {
			return fmt.Sprintf("column %s has the type %v, in the table %v (%v)", c.Name(), c.DataType(), tc.DataType(), err)
		}
		if x, err := sc.LookupColumn(c.Name()); err != nil || x.DataType() != tc.DataType() {
			return fmt.Sprintf("column %s is not found by its name: %v", c.Name(), err)
		}
	}
	return ""
}

type c11Cursor struct {
	rs       resultset.ResultSet
	cols     []string
	off, lim uint
	done     bool
	ends     int // calls of Next after the end
	pos      int // index of the current row, -1 before the first
	n        int
	spoilt   int // row whose obtained view the client has modified
}

// window returns the half-open range of rows.
func (k *c11Cursor) window() (int, int) {
	lo := k.n
	if k.off < uint(k.n) {
		lo = int(k.off)
	}
	hi := k.n
	if k.lim > 0 && k.lim < uint(hi-lo) {
		hi = lo + int(k.lim)
	}
	return lo, hi
}

// next moves the cursor and its reference.
func (k *c11Cursor) next(e *Env, c int) bool {
	lo, hi := k.window()
	if k.pos < 0 {
		k.pos = lo
	} else if !k.done {
		k.pos++
	}
	if k.pos >= hi {
		k.done = true
	}
	if k.done {
		k.ends++
	}
	if k.ends > 1 && k.ends%2 == 0 { // an exhausted cursor stays exhausted, closed or not
		if err := k.rs.Close(); err != nil {
			e.Failf("close", "client %d: closing an exhausted cursor: %v", c, err)
			return false
		}
	}
	got := k.rs.Next()
	e.Logf(c, "next %v", got)
	if got == k.done {
		e.Failf("next", "client %d: Next of a cursor with offset %d and limit %d over %d rows: %v at row %d", c, k.off, k.lim, k.n, got, k.pos)
		return false
	}
	return true
}

func init() {
	register(&Prop{
		ID: "C11", Quick: 200000, Thorough: 4000000, MaxSteps: 6000000,
		Rule: "2-4 clients open cursors with generated windows and projections (plain, missing and computed columns) over shared rows (objects or values) and shared schemas or schemas of their own over tables of the same name, and call Next, Row and the row accessors in generated histories, also before the first and after the last row, also modifying what they obtained; every answer is compared with a reference cursor; aggregation result sets likewise",
		Real: "sql/query/response/resultset, sql/fn", Stub: "none",
		Gen: func(r *simrt.Rng) *Plan {
			pl := &Plan{MapSeed: r.U64(), Cfg: map[string]int{"kind": r.Intn(13), "seed": r.Intn(1 << 20), "n": r.Intn(8)}}
			big := r.Bool(25)
			if big {
				pl.Cfg["n"] = bigN(r)
			}
			all := []string{"a", "b", "g", "c", "s", "h", "ABS(a)", "FLOOR(b)", "SQRT(c)", "PI()", "ABS(b)"}
			for i := 0; i <= r.Intn(2); i++ {
				var cs []string
				nk := r.Intn(4)
				if r.Bool(60) {
					nk = 6 + r.Intn(12)
				}
				for j := 0; j <= nk; j++ {
					cs = append(cs, all[r.Intn(len(all))])
				}
				if r.Bool(150) { // every column of the table, in some order
					cs = append([]string{}, agNames...)
					if r.Bool(500) {
						for j := range cs {
							k := r.Intn(j + 1)
							cs[j], cs[k] = cs[k], cs[j]
						}
					}
				}
				pl.Setup = append(pl.Setup, Op{K: "conn", S: cs})
			}
			nc := 2 + r.Intn(3)
			num := func() int {
				switch r.Intn(12) {
				case 0:
					return -1 - r.Intn(3)
				case 1, 2, 3:
					return 0
				}
				if big && r.Bool(500) {
					return r.Intn(pl.Cfg["n"] + 3)
				}
				return r.Intn(9)
			}
			for c := 0; c < nc; c++ {
				ops := []Op{{K: "open", I: []int{num(), num(), r.Intn(len(pl.Setup)), max(0, r.Intn(6)-2)}}}
				for j := 0; j <= 2+r.Intn(14); j++ {
					k := []string{"next", "next", "next", "row", "row", "row", "open", "stored", "fopen", "fnext", "frow"}[r.Intn(11)]
					switch k {
					case "open":
						if r.Bool(300) {
							ops = append(ops, Op{K: k, I: []int{num(), num(), r.Intn(len(pl.Setup)), max(0, r.Intn(6)-2)}})
						}
					default:
						if big && r.Bool(300) && k == "next" {
							k = "skip"
						}
						ops = append(ops, Op{K: k, I: []int{r.Intn(1 << 16)}})
					}
				}
				pl.Clients = append(pl.Clients, ops)
			}
			pl.Est = int64(nc * 150)
			return pl
		},
		Build: func(e *Env) func() {
			tbl := agTable()
			rows, maps := c11Stored(e.P.cfg("kind"), e.P.cfg("seed"), e.P.cfg("n"), tbl)
			n := len(maps)
			var schemas []resultset.Schema
			var cols [][]string
			for _, o := range e.P.Setup {
				schemas = append(schemas, c11Schema(o.S, tbl))
				cols = append(cols, o.S)
			}
			frows := make([]fn.Row, n)
			fcols := []string{"a", "g"}
			for i, m := range maps {
				frows[i] = fn.Row{m["a"], m["g"]}
			}
			// what the rows hold, independent of the maps the rows keep
			ref := agRows(e.P.cfg("seed"), n, 6)
			if e.P.cfg("kind") == 12 {
				for _, m := range ref {
					c11Sparse(e.P.cfg("seed"), m)
				}
			}
			for c := range e.P.Clients {
				e.S.Spawn(func() {
					var k *c11Cursor
					var frs fn.ResultSet
					fpos, fdone := -1, false
					for _, o := range e.P.Clients[c] {
						switch o.K {
						case "open":
							k = &c11Cursor{cols: cols[o.i(2)], off: min(c11Uint(o.i(0)), math.MaxUint-8), lim: c11Uint(o.i(1)), pos: -1, n: n, spoilt: -1}
							sc, t := schemas[o.i(2)], tbl
							if v := o.i(3); v > 0 { // a schema of its own, over a table of the same name
								t = c11Table(v)
								sc = c11Schema(k.cols, t)
							}
							if w := c11SchemaWrong(sc, k.cols, t); w != "" {
								e.Failf("schema", "client %d: the schema of the columns %v of the table (variant %d): %s", c, k.cols, o.i(3), w)
								return
							}
							with := resultset.WithResultSetRows(rows)
							if rows == nil {
								with = resultset.WithResultSetRowsOf(maps)
							} else if c%2 == 1 {
								with = resultset.WithResultSetRowsOf(rows)
							}
							k.rs = resultset.NewResultSet(resultset.WithResultSetSchema(sc), with, resultset.WithResultSetOffset(k.off), resultset.WithResultSetLimit(k.lim))
						case "next":
							if k != nil && !k.next(e, c) {
								return
							}
						case "skip":
							for z := o.i(0) % (n + 2); z > 0 && k != nil; z-- {
								if !k.next(e, c) {
									return
								}
							}
						case "row":
							if k != nil && !c11CheckRow(e, c, k, ref, o.i(0)) {
								return
							}
						case "stored":
							if len(rows) == 0 {
								continue
							}
							i := o.i(0) % n
							obj := rows[i].Object()
							vs := rows[i].Values()
							for _, name := range agNames {
								if showVal(obj[name]) != showVal(ref[i][name]) {
									e.Failf("stored", "client %d: stored row %d holds %v, want %v", c, i, obj, ref[i])
									return
								}
							}
							if len(vs) != len(ref[i]) && len(vs) != len(agNames) {
								e.Failf("stored", "client %d: stored row %d has the values %v", c, i, vs)
								return
							}
						case "fopen":
							frs = fn.NewResultSet(fn.WithColumns(fcols), fn.WithRows(frows))
							fpos, fdone = -1, false
						case "fnext":
							if frs == nil {
								continue
							}
							if !fdone {
								fpos++
							}
							if fpos >= n {
								fdone = true
							}
							if got := frs.Next(); got == fdone {
								e.Failf("next", "client %d: Next of an aggregation result with %d rows: %v at row %d", c, n, got, fpos)
								return
							}
						case "frow":
							if frs == nil {
								continue
							}
							row, err := frs.Row()
							m, merr := frs.Map()
							if fpos < 0 || fdone {
								if !errors.Is(err, fn.ErrNoData) || !errors.Is(merr, fn.ErrNoData) {
									e.Failf("outside", "client %d: Row of an aggregation result outside its rows (at %d of %d): %v, %v; Map: %v, %v", c, fpos, n, row, err, m, merr)
									return
								}
								continue
							}
							if err != nil || merr != nil || len(row) != 2 || showVal(row[0]) != showVal(ref[fpos]["a"]) || showVal(row[1]) != showVal(ref[fpos]["g"]) || len(m) != 2 || showVal(m["a"]) != showVal(row[0]) || showVal(m["g"]) != showVal(row[1]) {
								e.Failf("row", "client %d: row %d of an aggregation result is %v, %v / %v, %v", c, fpos, row, err, m, merr)
								return
							}
							m["a"] = "changed"
						}
						simrt.Y(44)
					}
				})
			}
			return func() {
				for i := range rows {
					obj := rows[i].Object()
					for _, name := range agNames {
						if showVal(obj[name]) != showVal(ref[i][name]) {
							e.Failf("stored", "stored row %d holds %v afterwards, want %v", i, obj, ref[i])
							return
						}
					}
				}
			}
		},
	})
}

func c11CheckRow(e *Env, c int, k *c11Cursor, ref []map[string]any, v int) bool {
	what := fmt.Sprintf("client %d: cursor with offset %d, limit %d over %d rows, columns %v, at row %d", c, k.off, k.lim, k.n, k.cols, k.pos)
	row, err := k.rs.Row()
	if k.pos < 0 || k.done {
		if !errors.Is(err, sqlerrors.ErrNoRows) || row != nil {
			e.Failf("outside", "%s: Row outside the window gives %v, %v", what, row, err)
			return false
		}
		e.Probe("row-outside-window")
		return true
	}
	if k.spoilt == k.pos {
		return true // the view of the current row is the caller's
	}
	m := ref[k.pos]
	var want []any
	for _, col := range k.cols {
		x, ok := c11Eval(col, m)
		if !ok {
			if err == nil {
				e.Failf("computed", "%s: column %s cannot be computed but Row gives %v", what, col, row.Values())
				return false
			}
			return true
		}
		want = append(want, x)
	}
	if err != nil {
		e.Failf("row-error", "%s: Row: %v", what, err)
		return false
	}
	vs := row.Values()
	e.Logf(c, "row %d %s", k.pos, agLine(vs))
	if agLine(vs) != agLine(want) {
		e.Failf("row", "%s: values %s, want %s", what, agLine(vs), agLine(want))
		return false
	}
	i := v % len(k.cols)
	if x, err := row.ValueAt(i); err != nil || agNum(x) != agNum(want[i]) {
		e.Failf("access", "%s: ValueAt(%d)=%v,%v, want %v", what, i, x, err, want[i])
		return false
	}
	if _, err := row.ValueAt(len(k.cols)); err == nil {
		e.Failf("access", "%s: ValueAt(%d) is accepted", what, len(k.cols))
		return false
	}
	name := k.rs.Schema().Columns()[i].Name()
	if x, err := row.ValueBy(name); err != nil || agNum(x) != agNum(want[i]) {
		e.Failf("access", "%s: ValueBy(%s)=%v,%v, want %v", what, name, x, err, want[i])
		return false
	}
	if _, err := row.ValueBy("no such column"); err == nil {
		e.Failf("access", "%s: ValueBy of an unknown name is accepted", what)
		return false
	}
	if f, ok := agFloat(want[i]); ok && want[i] != nil {
		var x float64
		if err := row.ScanAt(i, &x); err != nil || x != f {
			e.Failf("scan", "%s: ScanAt(%d) gives %v, %v, want %v", what, i, x, err, f)
			return false
		}
		x = -1
		if err := row.ScanBy(name, &x); err != nil || x != f {
			e.Failf("scan", "%s: ScanBy(%s) gives %v, %v, want %v", what, name, x, err, f)
			return false
		}
		// the first columns up to this one, numbers as numbers and text as text
		fs := make([]float64, i+1)
		ss := make([]string, i+1)
		var tos []any
		for j := 0; j <= i; j++ {
			if _, text := want[j].(string); text {
				tos = append(tos, &ss[j])
			} else {
				tos = append(tos, &fs[j])
			}
			if want[j] == nil {
				tos = nil
				break
			}
		}
		if tos != nil {
			if err := row.Scan(tos...); err != nil {
				e.Failf("scan", "%s: Scan of %d columns gives %v", what, i+1, err)
				return false
			}
			for j := 0; j <= i; j++ {
				if s, text := want[j].(string); text && ss[j] != s || !text && agNum(fs[j]) != agNum(want[j]) {
					e.Failf("scan", "%s: Scan of column %d gives %v %q, want %v", what, j, fs[j], ss[j], want[j])
					return false
				}
			}
			if i == len(k.cols)-1 {
				if err := row.Scan(append(tos, &x)...); err == nil {
					e.Failf("scan", "%s: Scan of more columns than there are is accepted", what)
					return false
				}
			}
		}
		if i == 0 {
			x = -1
			if err := row.Scan(&x); err != nil || x != f {
				e.Failf("scan", "%s: Scan gives %v, %v, want %v", what, x, err, f)
				return false
			}
		}
	}
	if v&256 != 0 { // other cursors must not notice
		k.spoilt = k.pos
		obj := row.Object()
		for _, n := range agNames {
			obj[n] = "changed"
		}
		for i := range vs {
			vs[i] = "changed"
		}
	}
	return true
}
