package main

import (
	"fmt"
	"math"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/cybergarage/go-sqlparser/sql"
	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/query/response/resultset"
	"verif.local/sim/simrt"
)

func showVal(v any) string {
	switch v := v.(type) {
	case time.Time:
		return "time"
	case float64:
		return fmt.Sprintf("f%v", v)
	}
	return fmt.Sprintf("%T:%v", v, v)
}

// sharedExecOpts is an option list that several callers pass; it is theirs.
var sharedExecOpts = make([]fn.ExecutorOption, 0, 8)

// execVals are argument lists for direct execution, good and bad.
func execVals(k int, row func(int) map[string]any) any {
	switch k % 12 {
	case 0:
		return []any{4}
	case 1:
		return []any{"2.25"}
	case 2:
		return []any{9.0, 2}
	case 3:
		return []any{}
	case 4:
		return []any{"abc"}
	case 5:
		return fn.Row{6.5}
	case 6:
		return fn.Map(row(k))
	case 7:
		return nil
	case 8:
		return " Mixed "
	case 9:
		return 16
	case 10:
		return []any{nil}
	default:
		return []any{-3.5, 2, 1}
	}
}

// c08Text makes the i-th statement of a fixed pool with many functions.
func c08Text(i int) string {
	r := simrt.NewRng(uint64(i)*2654435761 + 99)
	aggr := []string{"COUNT", "SUM", "AVG", "MIN", "MAX", "sum", "count", "Max", "avg"}
	sc := []string{"ABS", "FLOOR", "CEIL", "ROUND", "SQRT", "EXP", "abs", "Floor", "UPPER", "lower", "NOW", "SIN", "LOG", "PI", "COS", "TAN", "TRIM", "POWER", "MOD", "CURRENT_TIMESTAMP", "RAND", "NOSUCH", "exp", "power"}
	cols := []string{"a", "b", "c"}
	pick := func(l []string) string { return l[r.Intn(len(l))] }
	var sel []string
	n := 1 + r.Intn(3)
	switch r.Intn(8) {
	case 0, 1, 2:
		gb := ""
		if r.Bool(500) {
			gb = " GROUP BY g"
			if r.Bool(500) {
				sel = append(sel, "g")
			}
		}
		for k := 0; k < n; k++ {
			f := pick(aggr)
			arg := pick(cols)
			if strings.EqualFold(f, "COUNT") && r.Bool(500) {
				arg = "*"
			}
			sel = append(sel, f+"("+arg+")")
		}
		return "SELECT " + strings.Join(sel, ", ") + " FROM t" + gb
	case 3, 4:
		for k := 0; k < n; k++ {
			f := pick(sc)
			switch {
			case f == "NOW" || f == "PI" || f == "RAND" || f == "CURRENT_TIMESTAMP":
				sel = append(sel, f+"()")
			case strings.EqualFold(f, "UPPER") || strings.EqualFold(f, "LOWER") || f == "TRIM":
				sel = append(sel, f+"(s)")
			case strings.EqualFold(f, "POWER") || f == "MOD":
				sel = append(sel, f+"("+pick(cols)+", "+pick([]string{"2", "3", "c", "a"})+")")
			case r.Bool(150): // wrong number or kind of arguments
				sel = append(sel, f+"("+pick([]string{"", "s", "a, b", "a, b, c", "7", "-2.5"})+")")
			default:
				sel = append(sel, f+"("+pick(cols)+")")
			}
		}
		if r.Bool(400) {
			sel = append(sel, pick(cols))
		}
		return "SELECT " + strings.Join(sel, ", ") + " FROM t WHERE a = 1"
	case 5:
		var set []string
		for k := 0; k < n; k++ {
			c := pick(cols)
			if r.Bool(600) {
				set = append(set, fmt.Sprintf("%s = %s %s %d", c, c, pick([]string{"+", "-", "*", "/", "%"}), 1+r.Intn(9)))
			} else {
				set = append(set, fmt.Sprintf("%s = %d", c, r.Intn(100)))
			}
		}
		return "UPDATE t SET " + strings.Join(set, ", ") + " WHERE b > 3"
	case 6:
		return fmt.Sprintf("INSERT INTO t (a, s, b) VALUES (%d, %s, %d), (%d, %s, 7), (NULL, '', TRUE)", r.Intn(50), pick([]string{"'x1'", "''", "'0'", "' '"}), r.Intn(50), r.Intn(9), pick([]string{"'y'", "'é'", "''", "NULL"}))
	default:
		g := &gen{r: r, tag: fmt.Sprint(i)}
		t, _ := g.stmt()
		return t
	}
}

func c08Row(k int) map[string]any {
	return map[string]any{"a": k%7 + 1, "b": float64(k%5) + 0.5, "c": k % 3, "s": fmt.Sprintf("Str%d", k%4), "g": fmt.Sprintf("g%d", k%3)}
}

type aggrStmt interface {
	Aggregators() (query.AggregatorSet, error)
}

func showFnRS(rs fn.ResultSet) string {
	var rows []string
	for rs.Next() {
		m, err := rs.Map()
		if err != nil {
			return "ERR " + err.Error()
		}
		var ks []string
		for k, v := range m {
			ks = append(ks, k+"="+showVal(v))
		}
		sort.Strings(ks)
		rows = append(rows, strings.Join(ks, ","))
	}
	sort.Strings(rows)
	return fmt.Sprintf("%q %q", rs.Columns(), rows)
}

var c08Schema = func() query.Schema {
	var cs query.Columns
	for _, n := range []string{"a", "b", "c", "s", "g"} {
		cs = append(cs, query.NewColumnWithOptions(query.WithColumnName(n), query.WithColumnData(query.NewDataDef(query.DoubleType, -1))))
	}
	return query.NewSchemaWith("t", query.WithSchemaColumns(cs))
}()

// c08Item is what the i-th item of a statement's text yields for a row, computed from the text alone.
func c08Item(item string, r map[string]any) (any, bool) {
	i := strings.IndexByte(item, '(')
	if i < 0 {
		return nil, false
	}
	args := strings.Split(strings.TrimSuffix(item[i+1:], ")"), ", ")
	num := func(s string) (float64, bool) {
		if v, ok := r[s]; ok {
			if _, text := v.(string); text {
				return 0, false
			}
			return agFloat(v)
		}
		v, err := strconv.ParseFloat(s, 64)
		return v, err == nil
	}
	name := strings.ToUpper(item[:i])
	if t, ok := r[args[0]].(string); ok && len(args) == 1 {
		switch name {
		case "UPPER":
			return strings.ToUpper(t), true
		case "LOWER":
			return strings.ToLower(t), true
		case "TRIM":
			return strings.TrimSpace(t), true
		}
		return nil, false
	}
	x, ok := num(args[0])
	if !ok {
		return nil, false
	}
	switch len(args) {
	case 1:
		switch name {
		case "ABS":
			return math.Abs(x), true
		case "FLOOR":
			return math.Floor(x), true
		case "CEIL":
			return math.Ceil(x), true
		case "SQRT":
			return math.Sqrt(x), x > 0
		case "EXP":
			return math.Exp(x), true
		case "SIN":
			return math.Sin(x), true
		case "COS":
			return math.Cos(x), true
		case "TAN":
			return math.Tan(x), true
		}
	case 2:
		y, ok := num(args[1])
		if ok && name == "POWER" {
			return math.Pow(x, y), true
		}
	}
	return nil, false
}

// c08Items are the items of a generated SELECT or UPDATE.
func c08Items(text string) []string {
	var list string
	if t, ok := strings.CutPrefix(text, "SELECT "); ok {
		list, _, ok = strings.Cut(t, " FROM t")
		if !ok {
			return nil
		}
	} else if t, ok := strings.CutPrefix(text, "UPDATE t SET "); ok {
		list, _, _ = strings.Cut(t, " WHERE")
	} else {
		return nil
	}
	var out []string
	depth, from := 0, 0
	for i := 0; i < len(list); i++ {
		switch list[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ',':
			if depth == 0 {
				out = append(out, strings.TrimSpace(list[from:i]))
				from = i + 1
			}
		}
	}
	return append(out, strings.TrimSpace(list[from:]))
}

// c08Set is what the i-th assignment of an UPDATE yields.
func c08Set(item string, r map[string]any) (any, bool) {
	f := strings.Fields(item)
	if len(f) != 5 {
		return nil, false
	}
	x, _ := agFloat(r[f[2]])
	y, err := strconv.ParseFloat(f[4], 64)
	if err != nil {
		return nil, false
	}
	switch f[3] {
	case "+":
		return x + y, true
	case "-":
		return x - y, true
	case "*":
		return x * y, true
	case "/":
		return x / y, true
	}
	return nil, false
}

// c08Wrong compares an evaluation with what the text means.
func c08Wrong(text string, i int, r map[string]any, v any, err error) string {
	items := c08Items(text)
	if i >= len(items) {
		return ""
	}
	f := c08Item
	if text[0] == 'U' {
		f = c08Set
	}
	w, ok := f(items[i], r)
	if !ok {
		return ""
	}
	if err == nil {
		if s, ok := w.(string); ok {
			if v == s {
				return ""
			}
		} else if x, ok := agFloat(v); ok && v != nil {
			y := w.(float64)
			if x == y || math.Abs(x-y) <= 1e-9*math.Abs(y) {
				return ""
			}
		}
	}
	return fmt.Sprintf(" WRONG: %s of %v is %v, not %v (%v)", items[i], r, w, v, err)
}

// c08Aggr is what an aggregating statement's text means for a list of rows.
func c08Aggr(text string, rows []map[string]any) (string, bool) {
	items := c08Items(text)
	grouped := strings.HasSuffix(text, " GROUP BY g")
	groups := map[string][]map[string]any{}
	for _, r := range rows {
		g := ""
		if grouped {
			g = r["g"].(string)
		}
		groups[g] = append(groups[g], r)
	}
	var out []string
	for g, rs := range groups {
		var vs []string
		for _, it := range items {
			i := strings.IndexByte(it, '(')
			if i < 0 {
				if it != "g" || !grouped {
					return "", false
				}
				vs = append(vs, showVal(g))
				continue
			}
			sum, lo, hi := 0.0, math.Inf(1), math.Inf(-1)
			for _, r := range rs {
				x := 0.0
				if a := it[i+1 : len(it)-1]; a != "*" {
					v, ok := agFloat(r[a])
					if !ok {
						return "", false
					}
					x = v
				}
				sum, lo, hi = sum+x, math.Min(lo, x), math.Max(hi, x)
			}
			switch strings.ToUpper(it[:i]) {
			case "SUM":
				vs = append(vs, showVal(sum))
			case "AVG":
				vs = append(vs, showVal(sum/float64(len(rs))))
			case "MIN":
				vs = append(vs, showVal(lo))
			case "MAX":
				vs = append(vs, showVal(hi))
			case "COUNT":
				vs = append(vs, showVal(float64(len(rs))))
			default:
				return "", false
			}
		}
		out = append(out, strings.Join(vs, ","))
	}
	sort.Strings(out)
	return fmt.Sprintf("%q", out), true
}

// useStmt performs one kind of use of a parsed statement and shows what the caller obtains.
func useStmt(st query.Statement, text, kind string, k int, row func(int) map[string]any) string {
	switch kind {
	case "print":
		return full([]query.Statement{st}, nil)
	case "names": // lists of names are the caller's
		v := full([]query.Statement{st}, nil)
		var l [][]string
		switch s := st.(type) {
		case query.Select:
			l = append(l, s.From().TableNames())
			for _, x := range s.Selectors() {
				if f, ok := x.Function(); ok {
					l = append(l, f.Arguments().Names())
				}
			}
		case query.Update:
			l = append(l, s.Columns().Names())
		case query.CreateTable:
			l = append(l, s.Schema().Columns().Names())
		case query.CreateIndex:
			l = append(l, s.Index().Columns().Names())
		}
		for _, n := range l {
			for i := range n {
				n[i] = "overwritten"
			}
		}
		return v
	case "exec", "execv":
		var out []string
		run := func(n int, f query.Function) {
			// some callers pass an option list of their own, with room to spare
			var opts []fn.ExecutorOption
			if k%3 == 1 {
				opts = sharedExecOpts
			}
			ex, err := f.Executor(opts...)
			if err != nil {
				out = append(out, "noexec:"+err.Error())
				return
			}
			show := func(in any) {
				v, err := ex.Execute(in)
				if m, ok := in.(map[string]any); ok {
					if w := c08Wrong(text, n, m, v, err); w != "" {
						out = append(out, w)
					}
				}
				if strings.EqualFold(ex.Name(), "RAND") && err == nil {
					v = "random"
				}
				out = append(out, fmt.Sprintf("%s/%d%q=%s,%v", ex.Name(), ex.Type(), ex.Arguments(), showVal(v), err))
			}
			if kind == "execv" {
				// good, bad, good again on one executor, with another's execution in between
				if ex2, err := f.Executor(opts...); err == nil {
					show(execVals(k, row))
					_, _ = ex2.Execute(execVals(k+5, row))
				}
				simrt.Y(37)
				show(execVals(k+3, row))
				show(execVals(k+1, row))
			}
			show(row(k))
		}
		switch s := st.(type) {
		case query.Select:
			for n, x := range s.Selectors() {
				if f, ok := x.Function(); ok {
					run(n, f)
				}
			}
			out = append(out, fmt.Sprint(s.HasExecutor(), s.HasAggregator()))
		case query.Update:
			for n, c := range s.Columns() {
				if f, ok := c.Function(); ok {
					run(n, f)
				}
			}
		}
		return strings.Join(out, " ")
	case "find": // functions found by name, kind or as a list; the lists are the caller's
		s, ok := st.(query.Select)
		if !ok {
			return "n/a"
		}
		var out []string
		show := func(ex query.FunctionExecutor, err error) {
			if err != nil {
				out = append(out, "noexec:"+err.Error())
				return
			}
			v, err := ex.Execute(row(k))
			if strings.EqualFold(ex.Name(), "RAND") && err == nil {
				v = "random"
			}
			out = append(out, fmt.Sprintf("%s%q=%s,%v", ex.Name(), ex.Arguments(), showVal(v), err))
		}
		sels := s.Selectors()
		fs := sels.Functions()
		for i, f := range fs {
			lf, err := sels.LookupFunction(f.Name())
			if err != nil {
				out = append(out, "nofn:"+err.Error())
			} else {
				out = append(out, lf.String())
			}
			if !f.IsAggregator() {
				show(sels.LookupExecutor(f.Name()))
			}
			fs[i] = nil
		}
		_, err := sels.LookupExecutor("ABSENT")
		out = append(out, fmt.Sprint(err != nil, sels.Names(), sels.Len(), len(sels.Columns())))
		exs, err := sels.Executors()
		if err != nil {
			out = append(out, err.Error())
		}
		simrt.Y(37)
		for i, ex := range exs {
			show(ex, nil)
			exs[i] = nil
		}
		if !s.HasAggregator() {
			for _, t := range []fn.FunctionType{fn.MathFunction, fn.StringFunction, fn.ArithOperator} {
				exs, err := sels.ExecutorsForType(t)
				if err != nil {
					out = append(out, err.Error())
				}
				for _, ex := range exs {
					show(ex, nil)
				}
			}
		}
		return strings.Join(out, " ")
	case "aggr":
		s, ok := st.(aggrStmt)
		if !ok {
			return "n/a"
		}
		set, err := s.Aggregators()
		if err != nil {
			return "ERR " + err.Error()
		}
		if _, grouped := set2group(set); grouped {
			for i := k; i < 2*k+3; i++ {
				r := row(i)
				for _, a := range set {
					args := a.Arguments()
					row := []any{r["g"]}
					for _, x := range args {
						row = append(row, r[x])
					}
					if err := a.Aggregate(row); err != nil {
						return "ERR " + err.Error()
					}
				}
				simrt.Y(38)
			}
			var out []string
			for _, a := range set {
				rs, err := a.Finalize(fn.OrderByAsc)
				if err != nil {
					return "ERR " + err.Error()
				}
				out = append(out, showFnRS(rs))
			}
			return strings.Join(out, " | ")
		}
		for i := k; i < 2*k+3; i++ {
			if err := set.Aggregate(row(i)); err != nil {
				return "ERR " + err.Error()
			}
			simrt.Y(38)
		}
		rs, err := set.Finalize()
		if err != nil {
			return "ERR " + err.Error()
		}
		return showFnRS(rs)
	case "rs":
		s, ok := st.(query.Select)
		if !ok || !s.HasAggregator() {
			return "n/a"
		}
		var maps []map[string]any
		for i := k; i < k+3; i++ {
			maps = append(maps, row(i))
		}
		src := resultset.NewResultSet(resultset.WithResultSetSchema(resultset.NewSchema(resultset.WithSchemaColumns(resultset.NewColumnsFrom(c08Schema.Columns())))), resultset.WithResultSetRowsOf(maps))
		rs, err := resultset.NewAggregatedResultSetFrom(
			resultset.WithAggregatedResultSetTableSchema(c08Schema),
			resultset.WithAggregatedResultSetSelectors(s.Selectors()),
			resultset.WithAggregatedResultSetSource(src),
			resultset.WithAggregatedResultSetGroupBy(s.GroupBy()))
		if err != nil {
			return "ERR " + err.Error()
		}
		var rows []string
		for rs.Next() {
			r, err := rs.Row()
			if err != nil {
				return "ERR " + err.Error()
			}
			var vs []string
			for _, v := range r.Values() {
				vs = append(vs, showVal(v))
			}
			rows = append(rows, strings.Join(vs, ","))
		}
		sort.Strings(rows)
		got := fmt.Sprintf("%q", rows)
		if w, ok := c08Aggr(text, maps); ok && w != got {
			got += " WRONG: the text means " + w
		}
		return got
	case "copy":
		var cs query.Columns
		switch s := st.(type) {
		case query.Insert:
			cs = s.Values()[k%len(s.Values())]
		case query.Update:
			cs = s.Columns()
		case query.CreateTable:
			cs = s.Schema().Columns()
		default:
			return "n/a"
		}
		// and columns of values that are not written in the text
		cs = append(slices.Clone(cs), query.NewColumnWithOptions(query.WithColumnName("own"), query.WithColumnLiteral(query.NewLiteralWith([]any{"", nil, 0, false, 1.5, []byte("b"), "x", []byte{}, int64(7)}[k%9]))))
		before := dCols(cs)
		cp := cs.Copy()
		if d := dCols(cp); d != before {
			return "copy differs: " + d + " from " + before
		}
		for i, c := range cp {
			if c.HasValue() {
				_ = c.SetValue(fmt.Sprintf("changed%d-%d", k, i))
			}
			if d, ok := c.(interface{ SetDefinition(query.ColumnDef) error }); ok {
				_ = d.SetDefinition(query.NewDataDef(query.TextType, 5))
			}
		}
		simrt.Y(39)
		got := dCols(cp)
		if d := dCols(cs); d != before {
			return "original changed: " + d + " from " + before
		}
		return got
	}
	return ""
}

func set2group(set query.AggregatorSet) ([]fn.GroupBy, bool) {
	if len(set) == 0 {
		return nil, false
	}
	return set[0].GroupBys()
}

var useRef = map[string]string{}

// soloUse is what the only user of a freshly parsed copy obtains.
func soloUse(text, kind string, k int) string {
	key := fmt.Sprint(kind, k, "|", text)
	if v, ok := useRef[key]; ok {
		return v
	}
	sts, err := sql.NewParser().ParseString(text)
	if err != nil || len(sts) != 1 {
		panic(fmt.Sprintf("harness: %q: %v", text, err))
	}
	v := useStmt(sts[0], text, kind, k, c08Row)
	useRef[key] = v
	return v
}

func init() {
	register(&Prop{
		ID: "C08", Secs: 40, Quick: 30000, Thorough: 1000000, MaxSteps: 400000,
		Rule: "1-3 parsed statements shared by 2-4 clients that print, inspect, execute scalar functions, aggregate rows (directly and through result sets) and modify copies of columns; every use must give what the only user of a fresh copy obtains, and the statements must report the same afterwards",
		Real: "sql/query, sql/fn, sql/query/response/resultset, parser for the statements", Stub: "row source (in-memory rows)",
		Gen: func(r *simrt.Rng) *Plan {
			pl := &Plan{MapSeed: r.U64()}
			ns := 1 + r.Intn(3)
			for i := 0; i < ns; i++ {
				pl.Setup = append(pl.Setup, Op{K: "conn", S: []string{c08Text(r.Intn(700))}})
			}
			nc := 2 + r.Intn(3)
			kinds := []string{"print", "exec", "exec", "aggr", "aggr", "rs", "copy", "execv", "names", "find"}
			for c := 0; c < nc; c++ {
				var ops []Op
				for j := 0; j <= r.Intn(4); j++ {
					ops = append(ops, Op{K: kinds[r.Intn(len(kinds))], I: []int{r.Intn(ns), r.Intn(9)}})
				}
				pl.Clients = append(pl.Clients, ops)
			}
			pl.Est = int64(nc * 100)
			return pl
		},
		Build: func(e *Env) func() {
			var sts []query.Statement
			var texts, refs []string
			for _, o := range e.P.Setup {
				s, err := sql.NewParser().ParseString(o.s(0))
				if err != nil || len(s) != 1 {
					panic(fmt.Sprintf("harness: %q: %v", o.s(0), err))
				}
				sts = append(sts, s[0])
				texts = append(texts, o.s(0))
				refs = append(refs, soloUse(o.s(0), "print", 0))
			}
			for _, c := range e.P.Clients {
				for _, o := range c {
					soloUse(texts[o.i(0)], o.K, o.i(1))
				}
			}
			// the callers evaluate over the same rows, which are theirs
			pool := make([]map[string]any, 32)
			for i := range pool {
				pool[i] = c08Row(i)
			}
			row := func(k int) map[string]any { return pool[k] }
			res := make([][]string, len(e.P.Clients))
			for c := range e.P.Clients {
				e.S.Spawn(func() {
					for _, o := range e.P.Clients[c] {
						v := useStmt(sts[o.i(0)], texts[o.i(0)], o.K, o.i(1), row)
						res[c] = append(res[c], v)
						e.Logf(c, "%s %d %d -> %s", o.K, o.i(0), o.i(1), v)
						simrt.Y(40)
					}
				})
			}
			return func() {
				for c := range res {
					for k, o := range e.P.Clients[c] {
						if w := soloUse(texts[o.i(0)], o.K, o.i(1)); res[c][k] != w {
							e.Failf("use-"+o.K, "client %d, %s(%d) of %q: got %s; the only user of a fresh copy gets %s", c, o.K, o.i(1), texts[o.i(0)], res[c][k], w)
						}
						if strings.Contains(res[c][k], "WRONG") {
							e.Failf("meaning", "client %d, %s of %q: %s", c, o.K, texts[o.i(0)], res[c][k])
						}
						if strings.Contains(res[c][k], "original changed") || strings.Contains(res[c][k], "copy differs") {
							e.Failf("copy", "client %d: %s", c, res[c][k])
						}
					}
				}
				for i, r := range pool {
					if fmt.Sprint(r) != fmt.Sprint(c08Row(i)) {
						e.Failf("row", "an execution changed its caller's row %v to %v", c08Row(i), r)
					}
				}
				for i, s := range sts {
					if v := useStmt(s, texts[i], "print", 0, row); v != refs[i] {
						e.Failf("changed", "%q reports %s after having been used; before: %s", texts[i], v, refs[i])
					}
				}
			}
		},
	})
}
