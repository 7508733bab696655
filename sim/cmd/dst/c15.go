package main

import (
	"fmt"
	"strings"

	"github.com/cybergarage/go-sqlparser/sql"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"verif.local/sim/simrt"
	"verif.local/sim/ssync"
)

// scModel is the reference: ordered lists, nothing else.
type scModel struct {
	cols []string // definition strings
	idxs []string // "name|type|columns"
}

func (m scModel) copy() scModel {
	return scModel{append([]string{}, m.cols...), append([]string{}, m.idxs...)}
}

func defName(d string) string {
	if i := strings.IndexAny(d, " |"); i >= 0 {
		return d[:i]
	}
	return d
}

func findFold(l []string, name string) int {
	for i, d := range l {
		if strings.EqualFold(defName(d), name) {
			return i
		}
	}
	return -1
}

func without(l []string, i int) []string {
	return append(append([]string{}, l[:i]...), l[i+1:]...)
}

func colDefs(cs query.Columns) []string {
	out := []string{}
	for _, c := range cs {
		out = append(out, colDef(c))
	}
	return out
}

func colDef(c query.Column) string { return c.DefinitionString() }

func idxDef(x query.Index) string {
	return fmt.Sprintf("%s|%v|%s", x.Name(), x.Type(), strings.Join(x.Columns().Names(), ","))
}

func idxDefs(is query.Indexes) []string {
	out := []string{}
	for _, x := range is {
		out = append(out, idxDef(x))
	}
	return out
}

func sameList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// scTable is a schema with its model; shared ones are guarded by mu, as a
// service guards its catalog.
type scTable struct {
	mu ssync.RWMutex
	sc query.Schema
	m  scModel
}

var scNames = []string{"id", "ID", "name", "Name", "nAME", "v1", "V1", "v10", "x", "k", "été", "ÉTÉ"}

// scASCII is the number of names every tokenizer takes unquoted.
const scASCII = 10

var scTypes = []query.DataType{query.IntType, query.TextType, query.DoubleType, query.VarCharType}

func scCol(n, t int) query.Column {
	typ := scTypes[t%len(scTypes)]
	l := -1
	if typ == query.VarCharType {
		l = 1 + t
	}
	return query.NewColumnWithOptions(query.WithColumnName(scNames[n%len(scNames)]), query.WithColumnData(query.NewDataDef(typ, l)))
}

func scIdx(n, t int) query.Index {
	cs := query.NewColumnsWith(query.NewColumnWithName(scNames[t%len(scNames)]))
	if t%3 == 0 {
		return query.NewPrimaryIndexWith(cs)
	}
	return query.NewSecondaryIndexWith(scNames[n%len(scNames)], cs)
}

func scColSQL(n, t int) string {
	ty := []string{"INT", "TEXT", "DOUBLE", fmt.Sprintf("VARCHAR(%d)", 1+t)}[t%4]
	return scNames[n%len(scNames)] + " " + ty
}

// scApply performs an alteration on t and its model; the caller holds t.
// It returns what happened for the log.
func scApply(e *Env, c int, t *scTable, o Op, parser func() *sql.Parser) {
	before := t.m.copy()
	want := t.m.copy()
	fails := false
	var err error
	n, ty, n2 := o.i(1), o.i(2), o.i(3)
	name, name2 := scNames[n%len(scNames)], scNames[n2%len(scNames)]
	dropCol := func(name string) {
		if i := findFold(want.cols, name); i >= 0 {
			want.cols = without(want.cols, i)
		} else {
			fails = true
		}
	}
	dropIdx := func(name string) {
		if i := findFold(want.idxs, name); i >= 0 {
			want.idxs = without(want.idxs, i)
		} else {
			fails = true
		}
	}
	alterWith := func(st query.Statement) {
		if at, ok := st.(query.AlterTable); ok {
			err = t.sc.Alter(at)
			return
		}
		at, aerr := query.NewAlterTableFrom(st)
		if aerr != nil {
			err = aerr
			return
		}
		err = t.sc.Alter(at)
	}
	parse := func(text string) (query.Statement, bool) {
		p := *parser()
		sts, perr := p.ParseString(text)
		if perr != nil || len(sts) != 1 {
			e.Failf("parse", "client %d: %q gives %d statements, %v", c, text, len(sts), perr)
			return nil, false
		}
		return sts[0], true
	}
	switch o.K {
	case "addcol":
		col := scCol(n, ty)
		want.cols = append(want.cols, colDef(col))
		err = t.sc.AddColumn(col)
	case "dropcol":
		dropCol(name)
		err = t.sc.DropColumn(name)
	case "addidx":
		x := scIdx(n, ty)
		want.idxs = append(want.idxs, idxDef(x))
		err = t.sc.AddIndex(x)
	case "dropidx":
		dropIdx(name)
		err = t.sc.DropIndex(name)
	case "alter":
		// any combination of the alterations of one statement
		var opts []query.AlterTableOption
		if ty&1 != 0 {
			col := scCol(n, ty)
			want.cols = append(want.cols, colDef(col))
			opts = append(opts, query.WithAlterTableAddColumn(col))
		}
		if ty&2 != 0 {
			x := scIdx(n, ty)
			want.idxs = append(want.idxs, idxDef(x))
			opts = append(opts, query.WithAlterTableAddIndex(x))
		}
		// Removals in a statement refer to the table as it was or as it
		// will be; generated statements do not remove what they add.
		if ty&4 != 0 && (ty&1 == 0 || !strings.EqualFold(name, name2)) {
			dropCol(name2)
			opts = append(opts, query.WithAlterTableDropColumn(query.NewColumnWithName(name2)))
		}
		if ty&8 != 0 && (ty&2 == 0 || !strings.EqualFold(scIdx(n, ty).Name(), name2)) {
			dropIdx(name2)
			opts = append(opts, query.WithAlterTableDropIndex(query.NewIndexWith(name2, query.UnknownIndex, query.NewColumns())))
		}
		if ty&16 != 0 {
			fails = true
			opts = append(opts, query.WithAlterTableRenameTo(query.NewTableWith("other")))
		}
		if ty&32 != 0 {
			fails = true
			opts = append(opts, query.WithAlterTableRenameColumn(query.NewColumnWithName(name), query.NewColumnWithName(name2)))
		}
		alterWith(query.NewAlterTableWith(t.sc.TableName(), opts...))
	case "sqladdcol":
		st, ok := parse("ALTER TABLE " + t.sc.TableName() + []string{" ADD ", " ADD COLUMN "}[n2%2] + scColSQL(n, ty))
		if !ok {
			return
		}
		want.cols = append(want.cols, colDef(scCol(n, ty)))
		alterWith(st)
	case "sqldropcol":
		st, ok := parse("ALTER TABLE " + t.sc.TableName() + []string{" DROP ", " DROP COLUMN "}[n2%2] + name)
		if !ok {
			return
		}
		dropCol(name)
		alterWith(st)
	case "sqladdidx":
		x := query.NewSecondaryIndexWith(name, query.NewColumnsWith(query.NewColumnWithName(name2)))
		text := "CREATE INDEX " + name + " ON " + t.sc.TableName() + " (" + name2 + ")"
		if ty%2 == 1 {
			text = "ALTER TABLE " + t.sc.TableName() + " ADD INDEX " + name + " (" + name2 + ")"
		}
		st, ok := parse(text)
		if !ok {
			return
		}
		want.idxs = append(want.idxs, idxDef(x))
		alterWith(st)
	case "sqldropidx":
		st, ok := parse("DROP INDEX " + t.sc.TableName() + "." + name)
		if !ok {
			return
		}
		dropIdx(name)
		alterWith(st)
	case "sqlrename":
		st, ok := parse("ALTER TABLE " + t.sc.TableName() + []string{" RENAME TO other", " RENAME COLUMN " + name + " TO " + name2}[ty%2])
		if !ok {
			return
		}
		fails = true
		alterWith(st)
	case "sqlother":
		st, ok := parse([]string{"SELECT * FROM t", "DROP TABLE t", "CREATE TABLE t (a INT)", "DELETE FROM t"}[ty%4])
		if !ok {
			return
		}
		fails = true
		alterWith(st)
	default:
		return
	}
	if fails {
		want = before
		simrt.Count("probe:failing-alteration")
	}
	e.Logf(c, "%s %v %v", o.K, o.I, err)
	if (err != nil) != fails {
		e.Failf("answer", "client %d: %s %v on columns %q, indexes %q returns %v; failure expected: %v", c, o.K, o.I, before.cols, before.idxs, err, fails)
		return
	}
	t.m = want
	scCheck(e, c, t, fmt.Sprintf("%s %v (error %v) on columns %q, indexes %q", o.K, o.I, err, before.cols, before.idxs))
}

// scCheck compares a schema with its model.
func scCheck(e *Env, c int, t *scTable, after string) {
	if got := colDefs(t.sc.Columns()); !sameList(got, t.m.cols) {
		e.Failf("columns", "client %d: after %s the columns are %q instead of %q", c, after, got, t.m.cols)
		return
	}
	if got := idxDefs(t.sc.Indexes()); !sameList(got, t.m.idxs) {
		e.Failf("indexes", "client %d: after %s the indexes are %q instead of %q", c, after, got, t.m.idxs)
	}
}

// scLookup checks the lookups against the model.
func scLookup(e *Env, c int, t *scTable, o Op) {
	name := scNames[o.i(1)%len(scNames)]
	i := findFold(t.m.cols, name)
	col, err := t.sc.LookupColumn(name)
	switch {
	case (err == nil) != (i >= 0):
		e.Failf("lookup", "client %d: looking up column %s among %q gives %v", c, name, t.m.cols, err)
	case i >= 0 && !inAny(colDef(col), t.m.cols, name):
		e.Failf("lookup", "client %d: looking up column %s among %q gives %s", c, name, t.m.cols, colDef(col))
	}
	j := findFold(t.m.idxs, name)
	x, err := t.sc.LookupIndex(name)
	switch {
	case (err == nil) != (j >= 0):
		e.Failf("lookup", "client %d: looking up index %s among %q gives %v", c, name, t.m.idxs, err)
	case j >= 0 && !inAny(idxDef(x), t.m.idxs, name):
		e.Failf("lookup", "client %d: looking up index %s among %q gives %s", c, name, t.m.idxs, idxDef(x))
	}
	if n, err := t.sc.Columns().LookupIndexOfColumn(name); (err == nil) != (i >= 0) || i >= 0 && !strings.EqualFold(defName(t.m.cols[n]), name) {
		e.Failf("lookup", "client %d: position of column %s among %q: %d, %v", c, name, t.m.cols, n, err)
	}
	if n, err := t.sc.Indexes().LookupIndexOfIndex(name); (err == nil) != (j >= 0) || j >= 0 && !strings.EqualFold(defName(t.m.idxs[n]), name) {
		e.Failf("lookup", "client %d: position of index %s among %q: %d, %v", c, name, t.m.idxs, n, err)
	}
	var names []string
	for _, d := range t.m.cols {
		names = append(names, defName(d))
	}
	if got := t.sc.Columns().Names(); !sameList(got, names) {
		e.Failf("lookup", "client %d: column names %q instead of %q", c, got, names)
	}
	if got := len(t.sc.Selectors()); got != len(names) {
		e.Failf("lookup", "client %d: %d selectors for columns %q", c, got, names)
	}
}

func inAny(d string, l []string, name string) bool {
	for _, x := range l {
		if x == d && strings.EqualFold(defName(x), name) {
			return true
		}
	}
	return false
}

func init() {
	register(&Prop{
		ID: "C15", Quick: 150000, Thorough: 6000000, MaxSteps: 6000000,
		Rule: "2-4 sessions alter shared and own table schemas (initially built from shared column lists, copied from one another, or parsed) by direct calls, ALTER statements with any combination of clauses and parsed SQL, many of them failing, and keep listings taken before; every schema must equal the ordered list its history leaves, lookups agree with it, failures change nothing, listings taken earlier and other schemas stay as they were; alterations of one schema are serialised by the service's lock, everything else interleaves",
		Real: "sql/query, parser for parsed alterations", Stub: "the service's catalog lock",
		Gen: func(r *simrt.Rng) *Plan {
			pl := &Plan{Cfg: map[string]int{"shared": 1 + r.Intn(2), "base": r.Intn(5), "cap": r.Intn(5)}}
			if r.Bool(8) {
				pl.Cfg["base"] = bigN(r)
			}
			parsed := r.Bool(12)
			if parsed {
				pl.Cfg["parsed"] = 1
			}
			nc := 2 + r.Intn(3)
			for c := 0; c < nc; c++ {
				var ops []Op
				for j := 0; j <= 2+r.Intn(9); j++ {
					k := []string{"addcol", "addcol", "dropcol", "dropcol", "addidx", "dropidx", "alter", "alter", "list", "list", "hold", "hold", "lookup", "like", "setschema"}[r.Intn(15)]
					if parsed && r.Bool(350) {
						k = []string{"sqladdcol", "sqldropcol", "sqladdidx", "sqldropidx", "sqlrename", "sqlother"}[r.Intn(6)]
					}
					ty := r.Intn(64)
					if k == "alter" && r.Bool(700) {
						ty &= 15
					}
					nn := len(scNames)
					if strings.HasPrefix(k, "sql") {
						nn = scASCII
					}
					ops = append(ops, Op{K: k, I: []int{r.Intn(4), r.Intn(nn), ty, r.Intn(nn)}})
				}
				pl.Clients = append(pl.Clients, ops)
			}
			pl.Est = int64(nc * 80)
			return pl
		},
		Build: func(e *Env) func() {
			var shared []*scTable
			base := make(query.Columns, 0, e.P.cfg("base")+e.P.cfg("cap"))
			ibase := make(query.Indexes, 0, e.P.cfg("base")+e.P.cfg("cap"))
			for i := 0; i < e.P.cfg("base"); i++ {
				base = append(base, scCol(i*3, i))
				ibase = append(ibase, scIdx(i*3, i*2+1))
			}
			var m scModel
			m.cols, m.idxs = colDefs(base), idxDefs(ibase)
			newFrom := func(name string, cs query.Columns, is query.Indexes) query.Schema {
				return query.NewSchemaWith(name, query.WithSchemaColumns(cs), query.WithSchemaIndexes(is))
			}
			for i := 0; i < e.P.cfg("shared"); i++ {
				shared = append(shared, &scTable{sc: newFrom(fmt.Sprintf("t%d", i), base, ibase), m: m.copy()})
			}
			if e.P.cfg("parsed") == 1 {
				st, err := sql.NewParser().ParseString("CREATE TABLE t0 (id INT PRIMARY KEY, Name TEXT, v1 VARCHAR(3))")
				if err != nil {
					panic(err)
				}
				ct := st[0].(query.CreateTable)
				t := &scTable{sc: ct.Schema()}
				t.m.cols, t.m.idxs = colDefs(t.sc.Columns()), idxDefs(t.sc.Indexes())
				if want := []string{"id INT", "Name TEXT", "v1 VARCHAR(3)"}; !sameList(t.m.cols, want) {
					e.Failf("create", "the created table has the columns %q instead of %q", t.m.cols, want)
				}
				if len(t.m.idxs) != 1 || defName(t.m.idxs[0]) != "id" {
					e.Failf("create", "the created table has the indexes %q", t.m.idxs)
				}
				shared[0] = t
			}
			own := make([]*scTable, len(e.P.Clients))
			for c := range own {
				own[c] = &scTable{sc: newFrom(fmt.Sprintf("own%d", c), base, ibase), m: m.copy()}
			}
			type held struct {
				cols query.Columns
				idxs query.Indexes
				m    scModel
			}
			holds := make([][]held, len(e.P.Clients))
			checkHolds := func(c int) {
				for _, h := range holds[c] {
					if got := colDefs(h.cols); !sameList(got, h.m.cols) {
						e.Failf("earlier-listing", "client %d: a column listing obtained earlier went from %q to %q", c, h.m.cols, got)
						return
					}
					if got := idxDefs(h.idxs); !sameList(got, h.m.idxs) {
						e.Failf("earlier-listing", "client %d: an index listing obtained earlier went from %q to %q", c, h.m.idxs, got)
						return
					}
				}
			}
			for c := range e.P.Clients {
				e.S.Spawn(func() {
					var ps *sql.Parser
					parser := func() *sql.Parser {
						if ps == nil {
							p := sql.NewParser()
							ps = &p
						}
						return ps
					}
					for _, o := range e.P.Clients[c] {
						t := own[c]
						sh := o.i(0) > 0
						if sh {
							t = shared[o.i(0)%len(shared)]
						}
						switch o.K {
						case "list", "lookup", "hold", "like", "setschema":
							t.mu.RLock()
							switch o.K {
							case "list":
								scCheck(e, c, t, "other operations")
							case "lookup":
								scLookup(e, c, t, o)
							case "hold":
								holds[c] = append(holds[c], held{t.sc.Columns(), t.sc.Indexes(), t.m.copy()})
							case "like":
								if sh {
									own[c] = &scTable{sc: newFrom(fmt.Sprintf("own%d", c), t.sc.Columns(), t.sc.Indexes()), m: t.m.copy()}
								}
							case "setschema":
								name := scNames[o.i(1)%len(scNames)]
								cs := query.NewColumnsWith(query.NewColumnWithName(name))
								err := cs.SetSchema(t.sc)
								i := findFold(t.m.cols, name)
								if (err == nil) != (i >= 0) || i >= 0 && cs[0].Name() != name {
									e.Failf("setschema", "client %d: typing column %s by %q gives %v", c, name, t.m.cols, err)
								}
							}
							t.mu.RUnlock()
							checkHolds(c)
						default:
							t.mu.Lock()
							scApply(e, c, t, o, parser)
							t.mu.Unlock()
							checkHolds(c)
						}
					}
				})
			}
			return func() {
				for i, t := range shared {
					scCheck(e, i, t, "everything")
				}
				for i, t := range own {
					scCheck(e, i, t, "everything")
					checkHolds(i)
				}
			}
		},
	})
}
