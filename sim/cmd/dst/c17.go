package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/query/response/resultset"
	"github.com/cybergarage/go-sqlparser/sql/system"
	"verif.local/sim/simrt"
	"verif.local/sim/ssync"
)

var catTypes = []query.DataType{query.IntType, query.TextType, query.DoubleType, query.VarCharType, query.DoublePrecisionType, query.BigIntType, query.TimeStampType, query.BlobType, query.IntegerType, query.CharType, query.VarCharacterType, query.FloatType, query.BooleanType}

var catNames = []string{system.SchemaColumnsCatalog, system.SchemaColumnsSchema, system.SchemaColumnsTableName, system.SchemaColumnsColumnName, system.SchemaColumnsDataType}

type catEntry struct {
	table, name string
	typ         query.DataType
}

func (x catEntry) String() string { return x.table + "." + x.name + " " + x.typ.String() }

// catalog is a service's set of tables, guarded by one lock.
type catalog struct {
	mu     ssync.RWMutex
	tables []query.Schema
	names  []string
	cols   [][]catEntry
}

func (k *catalog) entries() []catEntry {
	out := []catEntry{}
	for _, t := range k.cols {
		out = append(out, t...)
	}
	return out
}

func showEntries(l []catEntry) string {
	var s []string
	for _, x := range l {
		s = append(s, x.String())
	}
	return "[" + strings.Join(s, ", ") + "]"
}

func listed(l system.SchemaColumnsResultSet) []catEntry {
	out := []catEntry{}
	for _, c := range l.Columns() {
		out = append(out, catEntry{c.Table(), c.Name(), c.DataType()})
	}
	return out
}

func sameEntries(a, b []catEntry) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// catSource is a faulty row source for listings.
type catSource struct {
	simSource
	malformed string
	want      []catEntry
	cat       []string // catalog and schema per row
}

// makeSource builds rows for a listing; kind selects representation and damage.
func makeSource(seed, n, mode, damage int) *catSource {
	r := simrt.NewRng(uint64(seed)*7919 + 13)
	s := &catSource{}
	s.names = catNames
	s.mode = mode % 3
	var cs []resultset.Column
	for _, nm := range catNames {
		cs = append(cs, resultset.NewColumn(resultset.WithColumnName(nm), resultset.WithColumnType(query.TextType)))
	}
	s.schema = resultset.NewSchema(resultset.WithSchemaColumns(cs))
	bad := -1
	if damage > 0 && n > 0 {
		bad = r.Intn(n)
	}
	for i := 0; i < n; i++ {
		x := catEntry{fmt.Sprintf("t%d", r.Intn(3)), fmt.Sprintf("c%d", i), catTypes[r.Intn(len(catTypes))]}
		cat, sch := fmt.Sprintf("cat%d", r.Intn(2)), fmt.Sprintf("db%d", r.Intn(2))
		s.want = append(s.want, x)
		s.cat = append(s.cat, cat+"/"+sch)
		var typ any = x.typ.String()
		switch r.Intn(4) {
		case 0:
			typ = []byte(x.typ.String())
		case 1:
			typ = strings.ToLower(x.typ.String())
		}
		m := map[string]any{catNames[0]: cat, catNames[1]: sch, catNames[2]: x.table, catNames[3]: x.name, catNames[4]: typ}
		if r.Bool(200) {
			m[catNames[3]] = []byte(x.name)
		}
		if r.Bool(200) {
			m["EXTRA"] = i
		}
		if i == bad {
			switch damage {
			case 1, 2, 3, 4, 5:
				if s.mode == 2 {
					m[catNames[4]] = nil
					s.malformed = "a row without a data type"
				} else {
					delete(m, catNames[damage-1])
					s.malformed = "a row without " + catNames[damage-1]
				}
			case 6:
				m[catNames[4]] = "NOTATYPE"
				s.malformed = "an unknown data type"
			case 7:
				clear(m)
				s.malformed = "an empty row"
			default:
				m[catNames[4]] = 17
				s.malformed = "a data type that is no text"
			}
		}
		s.rows = append(s.rows, m)
	}
	return s
}

func init() {
	register(&Prop{
		ID: "C17", Quick: 120000, Thorough: 5000000, MaxSteps: 6000000,
		Rule: "2-4 sessions list the columns of a shared catalog of 0-4 tables that others alter, read listings back from the library's and from faulty, slow row sources (rows as maps, as one reused map, as values; with missing or undecodable fields), look columns up and inspect listings obtained earlier; a listing must be the catalog of the moment it was taken, a listing read from a source exactly its rows, a failure the source's own error and no listing; the catalog's lock is the service's",
		Real: "sql/system, sql/query/response/resultset, sql/query", Stub: "row sources other than the library's, the service's catalog lock",
		Gen: func(r *simrt.Rng) *Plan {
			pl := &Plan{Cfg: map[string]int{"tables": []int{r.Intn(5), r.Intn(5), r.Intn(5), r.Intn(12)}[r.Intn(4)]}, Rate: []int{0, 30, 150}[r.Intn(3)], MapSeed: r.U64()}
			big := r.Bool(12)
			stm := r.Bool(30)
			if r.Bool(150) {
				pl.Cfg["twins"] = 1
			}
			for t := 0; t < pl.Cfg["tables"]; t++ {
				var I []int
				n := r.Intn(5)
				if big && r.Bool(500) {
					n = bigN(r)
				}
				for j := 0; j < n; j++ {
					I = append(I, r.Intn(100))
				}
				pl.Setup = append(pl.Setup, Op{K: "table", I: I})
			}
			nc := 2 + r.Intn(3)
			for c := 0; c < nc; c++ {
				var ops []Op
				for j := 0; j <= 1+r.Intn(6); j++ {
					switch r.Intn(9) {
					case 0, 1:
						ops = append(ops, Op{K: "rows"})
					case 2, 3:
						ops = append(ops, Op{K: "list", I: []int{r.Intn(100)}})
					case 4, 5:
						d := 0
						if r.Bool(300) {
							d = 1 + r.Intn(8)
						}
						n := r.Intn(6)
						if big && r.Bool(400) {
							n = bigN(r)
							if r.Bool(60) {
								n = 1000 + r.Intn(4000)
							}
						}
						ops = append(ops, Op{K: "read", I: []int{r.Intn(1000), n, r.Intn(3), d}})
					case 6:
						ops = append(ops, Op{K: "again"})
					default:
						ops = append(ops, Op{K: []string{"add", "drop", "create"}[r.Intn(3)], I: []int{r.Intn(5), r.Intn(100)}})
					}
				}
				if stm {
					ops = append(ops, Op{K: "stmt", I: []int{r.Intn(3), c, r.Intn(4)}})
				}
				pl.Clients = append(pl.Clients, ops)
			}
			pl.Est = int64(nc * 120)
			return pl
		},
		Build: func(e *Env) func() {
			k := &catalog{}
			col := func(n int) (query.Column, string, query.DataType) {
				name, typ := fmt.Sprintf("c%d", n%7), catTypes[n%len(catTypes)]
				return query.NewColumnWithOptions(query.WithColumnName(name), query.WithColumnData(query.NewDataDef(typ, -1))), name, typ
			}
			create := func(name string, ns []int) {
				cs := query.NewColumns()
				es := []catEntry{}
				for _, n := range ns {
					c, nm, ty := col(n)
					cs = append(cs, c)
					es = append(es, catEntry{name, nm, ty})
				}
				k.tables = append(k.tables, query.NewSchemaWith(name, query.WithSchemaColumns(cs)))
				k.names = append(k.names, name)
				k.cols = append(k.cols, es)
			}
			for i, o := range e.P.Setup {
				if i > 0 && e.P.cfg("twins") == 1 && i%3 == 0 {
					create(fmt.Sprintf("t%d", i-1), o.I) // a table of another database
					continue
				}
				create(fmt.Sprintf("t%d", i), o.I)
			}
			type kept struct {
				l    system.SchemaColumnsResultSet
				want []catEntry
			}
			keeps := make([][]kept, len(e.P.Clients))
			again := func(c int) {
				for _, x := range keeps[c] {
					if got := listed(x.l); !sameEntries(got, x.want) {
						e.Failf("changed", "client %d: a listing obtained earlier went from %s to %s", c, showEntries(x.want), showEntries(got))
						return
					}
				}
			}
			for c := range e.P.Clients {
				e.S.Spawn(func() {
					for _, o := range e.P.Clients[c] {
						switch o.K {
						case "add", "drop", "create":
							k.mu.Lock()
							switch {
							case o.K == "create":
								create(fmt.Sprintf("t%d", len(k.tables)), []int{o.i(1), o.i(1) / 7})
							case len(k.tables) == 0:
							case o.K == "add":
								t := o.i(0) % len(k.tables)
								cl, nm, ty := col(o.i(1))
								if err := k.tables[t].AddColumn(cl); err == nil {
									k.cols[t] = append(k.cols[t], catEntry{k.names[t], nm, ty})
								}
							default:
								t := o.i(0) % len(k.tables)
								nm := fmt.Sprintf("c%d", o.i(1)%7)
								if err := k.tables[t].DropColumn(nm); err == nil {
									for i, x := range k.cols[t] {
										if x.name == nm {
											k.cols[t] = append(append([]catEntry{}, k.cols[t][:i]...), k.cols[t][i+1:]...)
											break
										}
									}
								}
							}
							k.mu.Unlock()
						case "rows", "list":
							k.mu.RLock()
							want := k.entries()
							rs, err := system.NewSchemaColumnsResultSetFromSchemas(k.tables)
							k.mu.RUnlock()
							if err != nil {
								e.Failf("list-error", "client %d: listing %s gives %v", c, showEntries(want), err)
								continue
							}
							if o.K == "rows" {
								got := []catEntry{}
								for rs.Next() {
									row, err := rs.Row()
									if err != nil {
										e.Failf("list-error", "client %d: reading the listing of %s gives %v", c, showEntries(want), err)
										break
									}
									var x catEntry
									t, err1 := row.ValueBy(catNames[2])
									n, err2 := row.ValueBy(catNames[3])
									d, err3 := row.ValueBy(catNames[4])
									if err := errors.Join(err1, err2, err3); err != nil {
										e.Failf("list-error", "client %d: reading a row of the listing gives %v", c, err)
										break
									}
									x.table, x.name = fmt.Sprint(t), fmt.Sprint(n)
									x.typ, _ = query.NewDataTypeFrom(d)
									got = append(got, x)
								}
								e.Logf(c, "rows %s", showEntries(got))
								if !sameEntries(got, want) {
									e.Failf("listing", "client %d: the listing has the rows %s; the catalog was %s", c, showEntries(got), showEntries(want))
								}
								continue
							}
							l, err := system.NewSchemaColumnsResultSetFromResultSet(rs)
							if err != nil || l == nil {
								e.Failf("list-error", "client %d: reading the listing of %s gives %v", c, showEntries(want), err)
								continue
							}
							got := listed(l)
							e.Logf(c, "list %s", showEntries(got))
							if !sameEntries(got, want) {
								e.Failf("listing", "client %d: the listing is %s; the catalog was %s", c, showEntries(got), showEntries(want))
							}
							keeps[c] = append(keeps[c], kept{l, want})
							nm := []string{"c", "C"}[o.i(0)%2] + fmt.Sprint(o.i(0)%8)
							x, err := l.LookupColumn(nm)
							found := false
							for _, y := range want {
								if strings.EqualFold(y.name, nm) {
									found = true
									if err == nil && x.Table() == y.table && x.DataType() == y.typ {
										break
									}
									if err == nil {
										e.Failf("lookup", "client %d: looking up %s in %s gives %s.%s", c, nm, showEntries(want), x.Table(), x.Name())
									}
									break
								}
							}
							if found != (err == nil) {
								e.Failf("lookup", "client %d: looking up %s in %s gives %v", c, nm, showEntries(want), err)
							}
						case "read":
							src := makeSource(o.i(0), o.i(1), o.i(2), o.i(3))
							src.faulty = true
							l, err := system.NewSchemaColumnsResultSetFromResultSet(src)
							e.Logf(c, "read %v", err)
							if err != nil && l != nil {
								e.Failf("both", "client %d: reading a listing gives both a listing and the error %v", c, err)
							}
							switch {
							case src.err != nil:
								e.Probe("source-failed")
								if err == nil {
									e.Failf("lost-error", "client %d: the source failed with %q at row %d of %d but a listing was given", c, src.err, src.pos, len(src.rows))
								} else if !errors.Is(err, src.err) && src.malformed == "" {
									e.Failf("other-error", "client %d: the source failed with %q but the error is %v", c, src.err, err)
								}
							case src.malformed != "":
								e.Probe("malformed-row")
								if err == nil {
									e.Failf("malformed", "client %d: a listing was given although the source has %s", c, src.malformed)
								}
							case err != nil:
								e.Failf("read-error", "client %d: reading a healthy source gives %v", c, err)
							default:
								got := listed(l)
								if !sameEntries(got, src.want) {
									e.Failf("read", "client %d: the source's entries %s are read as %s", c, showEntries(src.want), showEntries(got))
									continue
								}
								for i, x := range l.Columns() {
									if x.Catalog()+"/"+x.Schema() != src.cat[i] {
										e.Failf("read", "client %d: entry %d belongs to %s, but is read as %s/%s", c, i, src.cat[i], x.Catalog(), x.Schema())
									}
								}
								keeps[c] = append(keeps[c], kept{l, src.want})
							}
						case "again":
							again(c)
						case "stmt":
							db := fmt.Sprintf("db%d", o.i(1))
							var ts []string
							if o.i(0) > 0 {
								ts = []string{[]string{fmt.Sprintf("tbl%d", o.i(1)), db, "T 1", strings.ToUpper(db)}[o.i(2)%4]}
							}
							s, err := system.NewSchemaColumnsStatement(system.WithSchemaColumnsStatementDatabaseName(db), system.WithSchemaColumnsStatementTableNames(ts))
							if err != nil {
								e.Failf("stmt", "client %d: request for %s %q: %v", c, db, ts, err)
								continue
							}
							s2, err := system.NewSchemaColumnsStatement(system.WithSchemaColumnsStatementSelect(s.Statement()))
							if err != nil || s2.DatabaseName() != db || !sameList(s2.TableNames(), ts) || !system.IsSchemaColumsQuery(s.Statement()) {
								e.Failf("stmt", "client %d: the request for %s %q is read back as %v, %v", c, db, ts, s2, err)
							}
						}
					}
					again(c)
				})
			}
			return func() {
				for c := range keeps {
					again(c)
				}
			}
		},
	})
}
