package main

import (
	"fmt"
	"strings"

	"github.com/cybergarage/go-sqlparser/sql"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"verif.local/sim/simrt"
)

// ---- what a statement reports about itself, through its public accessors ----

func dLit(l *query.Literal) string {
	if l == nil {
		return "<nolit>"
	}
	v := l.Value()
	if bp, ok := v.(query.BindParam); ok {
		return fmt.Sprintf("bind:%v", bp)
	}
	return fmt.Sprintf("%T:%v/%d", v, v, l.ValueType())
}

func dCol(c query.Column) string {
	var b strings.Builder
	b.WriteString(c.Name())
	if d := c.Definition(); d != nil {
		fmt.Fprintf(&b, " %s(%d)", d.DataType(), d.DataTypeSize())
	}
	if c.HasValue() {
		v := c.Value()
		if bp, ok := v.(query.BindParam); ok {
			fmt.Fprintf(&b, " =bind:%v", bp)
		} else {
			fmt.Fprintf(&b, " =%T:%v/%d", v, v, c.ValueType())
		}
	}
	if f, ok := c.Function(); ok {
		b.WriteString(" fn:" + dFn(f))
		fmt.Fprintf(&b, " args:%v", c.Arguments())
	}
	return b.String()
}

func dFn(f query.Function) string {
	return fmt.Sprintf("%s%q", f.Name(), f.Arguments().Names())
}

func dCols(cs query.Columns) string {
	s := make([]string, len(cs))
	for i, c := range cs {
		s[i] = dCol(c)
	}
	return "[" + strings.Join(s, "; ") + "]"
}

func dIdx(x query.Index) string {
	if x == nil {
		return "<noindex>"
	}
	return fmt.Sprintf("%s:%d:%v", x.Name(), x.Type(), x.Columns().Names())
}

func dIdxs(xs query.Indexes) string {
	s := make([]string, len(xs))
	for i, x := range xs {
		s[i] = dIdx(x)
	}
	return "[" + strings.Join(s, "; ") + "]"
}

func dExpr(x query.Expr) string {
	switch x := x.(type) {
	case nil:
		return "<none>"
	case *query.CmpExpr:
		if x == nil {
			return "<nil>"
		}
		return fmt.Sprintf("(%s %s %s)", x.Left().Name(), x.Operator(), dLit(x.Right()))
	case *query.AndExpr:
		return "(" + dExpr(x.Left()) + " AND " + dExpr(x.Right()) + ")"
	case *query.OrExpr:
		return "(" + dExpr(x.Left()) + " OR " + dExpr(x.Right()) + ")"
	}
	return fmt.Sprintf("%T", x)
}

func dSchema(s query.Schema) string {
	return s.FullTableName() + dCols(s.Columns()) + dIdxs(s.Indexes())
}

// describe gives the meaning of a statement (no printing involved).
func describe(st query.Statement) string {
	switch st.StatementType() {
	case query.CreateDatabaseStatement:
		s := st.(query.CreateDatabase)
		return fmt.Sprintf("CREATE DATABASE %s %v", s.DatabaseName(), s.IfNotExists())
	case query.CreateTableStatement:
		s := st.(query.CreateTable)
		return fmt.Sprintf("CREATE TABLE %s %v %s", s.TableName(), s.IfNotExists(), dSchema(s.Schema()))
	case query.CreateIndexStatement:
		s := st.(query.CreateIndex)
		return fmt.Sprintf("CREATE INDEX %s %v %s", s.TableName(), s.IfNotExists(), dIdx(s.Index()))
	case query.DropDatabaseStatement:
		s := st.(query.DropDatabase)
		return fmt.Sprintf("DROP DATABASE %s %v", s.DatabaseName(), s.IfExists())
	case query.DropTableStatement:
		s := st.(query.DropTable)
		return fmt.Sprintf("DROP TABLE %v %v", s.TableNames(), s.IfExists())
	case query.DropIndexStatement:
		s := st.(query.DropIndex)
		return fmt.Sprintf("DROP INDEX %s.%s %v", s.TableName(), s.IndexName(), s.IfExists())
	case query.AlterDatabaseStatement:
		s := st.(query.AlterDatabase)
		return fmt.Sprintf("ALTER DATABASE %s %v", s.DatabaseName(), s.RenameTo())
	case query.AlterTableStatement:
		s := st.(query.AlterTable)
		r := "ALTER TABLE " + s.TableName()
		if t, ok := s.RenameTo(); ok {
			r += " TO " + t.FullTableName()
		}
		if f, t, ok := s.RenameColumns(); ok {
			r += " RENAME " + f.Name() + "->" + t.Name()
		}
		if c, ok := s.AddColumn(); ok {
			r += " ADD " + dCol(c)
		}
		if c, ok := s.DropColumn(); ok {
			r += " DROP " + c.Name()
		}
		if x, ok := s.AddIndex(); ok {
			r += " ADDIDX " + dIdx(x)
		}
		if x, ok := s.DropIndex(); ok {
			r += " DROPIDX " + x.Name()
		}
		return r
	case query.InsertStatement:
		s := st.(query.Insert)
		r := "INSERT " + s.TableName()
		for _, v := range s.Values() {
			r += " " + dCols(v)
		}
		return r
	case query.UpdateStatement:
		s := st.(query.Update)
		return "UPDATE " + s.TableName() + " " + dCols(s.Columns()) + " WHERE " + dExpr(s.Where().Expr())
	case query.DeleteStatement:
		s := st.(query.Delete)
		return "DELETE " + s.TableName() + " WHERE " + dExpr(s.Where().Expr())
	case query.SelectStatement:
		s := st.(query.Select)
		var sel []string
		for _, x := range s.Selectors() {
			if f, ok := x.Function(); ok {
				sel = append(sel, "fn:"+dFn(f))
			} else {
				sel = append(sel, x.Name())
			}
		}
		var ord []string
		for _, o := range s.OrderBy().Orders() {
			ord = append(ord, o.ColumnName()+" "+o.Type().String())
		}
		return fmt.Sprintf("SELECT %q FROM %v WHERE %s GROUP %q ORDER %v LIMIT %d+%d", sel, s.From().TableNames(), dExpr(s.Where().Expr()), s.GroupBy().ColumnName(), ord, s.Limit().Offset(), s.Limit().Limit())
	case query.CopyStatement:
		s := st.(query.Copy)
		r := fmt.Sprintf("COPY %s %v", s.TableName(), s.Columns().Names())
		if x, ok := st.(interface {
			Source() string
			Format() query.CopyFormat
		}); ok {
			r += " FROM " + x.Source() + " " + x.Format().String()
		}
		return r
	case query.VacuumStatement:
		s := st.(query.Vacuum)
		return "VACUUM " + s.TableName()
	case query.TruncateStatement:
		s := st.(query.Truncate)
		return fmt.Sprintf("TRUNCATE %v", s.TableNames())
	case query.UseStatement:
		s := st.(query.Use)
		return "USE " + s.DatabaseName()
	case query.BeginStatement:
		return "BEGIN"
	case query.CommitStatement:
		return "COMMIT"
	case query.RollbackStatement:
		return "ROLLBACK"
	}
	return "type " + st.StatementType().String()
}

func describeAll(sts []query.Statement) string {
	s := make([]string, len(sts))
	for i, x := range sts {
		s[i] = describe(x)
	}
	return strings.Join(s, " ;; ")
}

// full adds the printed text and the kinds of functions.
func full(sts []query.Statement, err error) string {
	if err != nil {
		return "ERR " + err.Error()
	}
	var b strings.Builder
	b.WriteString(describeAll(sts))
	for _, x := range sts {
		b.WriteString(" ## " + x.String())
		if s, ok := x.(query.Select); ok && s.StatementType() == query.SelectStatement {
			fmt.Fprintf(&b, " aggr=%v", s.HasAggregator())
			for _, sel := range s.Selectors() {
				if f, ok := sel.Function(); ok {
					fmt.Fprintf(&b, " %s:%d", f.Name(), f.Type())
				}
			}
		}
	}
	return b.String()
}

func parseFull(p sql.Parser, text string) (string, []query.Statement) {
	sts, err := p.ParseString(text)
	return full(sts, err), sts
}

// solo gives the answer of a fresh parser used alone; called outside the simulated run only.
var soloCache = map[string]string{}

func solo(text string) string {
	if s, ok := soloCache[text]; ok {
		return s
	}
	s, _ := parseFull(sql.NewParser(), text)
	soloCache[text] = s
	return s
}

// ---- generated statements with their meaning --------------------------------

// gen makes SQL text together with the description that text must have.
type gen struct {
	r   *simrt.Rng
	tag string // makes names unique per client and operation
	n   int
	mut int // 0, or the way in which this input differs from its twin made with the same random numbers
}

// twin is the recipe of an input.
type twin struct {
	seed uint64
	tag  string
	bad  int
}

// related makes a new input or, often, a close relative of an earlier one: the same
// text, or one that differs only in the case, spacing or digits of literals, in the
// case of names or keywords.
func related(r *simrt.Rng, tag string, bad int, seen *[]twin) (string, string) {
	t := twin{r.U64(), tag, bad}
	mut := 0
	if len(*seen) > 0 && r.Bool(350) {
		t = (*seen)[r.Intn(len(*seen))]
		mut = r.Intn(7)
	} else {
		*seen = append(*seen, t)
	}
	g := &gen{r: simrt.NewRng(t.seed), tag: t.tag, mut: mut}
	return g.input(t.bad)
}

func (g *gen) name(p string) string {
	g.n++
	if g.mut == 4 {
		p = strings.ToUpper(p)
	}
	if g.r.Bool(250) {
		return fmt.Sprintf("%s%d", p, g.r.Intn(4))
	}
	return fmt.Sprintf("%s%s_%d", p, g.tag, g.n)
}

func (g *gen) kw(s string) string {
	if g.r.Bool(200) != (g.mut == 5) {
		return strings.ToLower(s)
	}
	return s
}

type glit struct{ text, want string }

func (g *gen) lit() glit {
	switch g.r.Intn(6) {
	case 0, 1:
		v := fmt.Sprint(g.num(1000))
		return glit{v, "string:" + v + "/0"}
	case 2:
		v := fmt.Sprintf("%d.%d", g.r.Intn(100), g.num(100))
		return glit{v, "string:" + v + "/0"}
	case 3:
		return glit{"NULL", "string:NULL/0"}
	default:
		v := g.name("s")
		if g.r.Bool(300) {
			v += " x;y -- z"
		}
		if g.r.Bool(12) { // a long text
			v = strings.Repeat(v+", ", 1+g.r.Intn(400))
		}
		switch g.mut {
		case 1:
			v = strings.ToUpper(v)
		case 2:
			v += " "
		case 6:
			v = " " + v
		}
		if g.r.Bool(150) {
			v = []string{"'" + v, v + "'", v + "'' " + v, "\"" + v + "\"", v + "\"", "", "'", v + "\n'" + v, "it's " + v + ", isn't it?"}[g.r.Intn(9)]
		}
		return glit{"'" + strings.ReplaceAll(v, "'", "''") + "'", "string:" + v + "/1"}
	}
}

func (g *gen) num(n int) int {
	v := g.r.Intn(n)
	if g.mut == 3 {
		v = v/10*10 + (v+1)%10
	}
	return v
}

func (g *gen) where() (string, string) {
	cmp := func() (string, string) {
		ops := [][2]string{{"=", "="}, {"!=", "!="}, {"<>", "!="}, {"<", "<"}, {">", ">"}, {"<=", "<="}, {">=", ">="}}
		o := ops[g.r.Intn(len(ops))]
		c, l := g.name("w"), g.lit()
		for l.text == "NULL" {
			l = g.lit()
		}
		return c + " " + o[0] + " " + l.text, "(" + c + " " + o[1] + " " + l.want + ")"
	}
	switch g.r.Intn(5) {
	case 0:
		return "", "<none>"
	case 1, 2:
		t, w := cmp()
		return " " + g.kw("WHERE") + " " + t, w
	case 3:
		t, w := cmp()
		t2, w2 := cmp()
		return " " + g.kw("WHERE") + " " + t + " " + g.kw("AND") + " " + t2, "(" + w + " AND " + w2 + ")"
	default:
		t, w := cmp()
		t2, w2 := cmp()
		return " " + g.kw("WHERE") + " " + t + " " + g.kw("OR") + " " + t2, "(" + w + " OR " + w2 + ")"
	}
}

var genTypes = []string{"INT", "INTEGER", "BIGINT", "SMALLINT", "TINYINT", "FLOAT", "DOUBLE", "TEXT", "BLOB", "BOOLEAN", "TIMESTAMP", "DATE", "VARCHAR(255)", "CHAR(16)"}

func (g *gen) coldef(c string) (string, string) {
	t := genTypes[g.r.Intn(len(genTypes))]
	if i := strings.IndexByte(t, '('); i > 0 && g.r.Bool(600) {
		t = fmt.Sprintf("%s(%d)", t[:i], 1+g.num(300))
	}
	n := -1
	base := t
	if i := strings.IndexByte(t, '('); i > 0 {
		base = t[:i]
		fmt.Sscanf(t[i+1:], "%d", &n)
	}
	if g.r.Bool(200) {
		return c + " " + strings.ToLower(t), fmt.Sprintf("%s %s(%d)", c, base, n)
	}
	return c + " " + t, fmt.Sprintf("%s %s(%d)", c, base, n)
}

// bare is a literal that is not quoted.
func (g *gen) bare() string {
	switch g.r.Intn(5) {
	case 0:
		return []string{"TRUE", "FALSE", "true", "NULL", "CURRENT_TIMESTAMP", "CURRENT_DATE", "CURRENT_TIME"}[g.r.Intn(7)]
	case 1:
		return fmt.Sprintf("-%d", 1+g.num(90))
	case 2:
		return fmt.Sprintf("%d.%dE2", g.r.Intn(9), 1+g.num(9))
	case 3:
		return fmt.Sprintf("+%d", 1+g.num(90))
	default:
		return fmt.Sprintf("-%d.%d", g.r.Intn(9), 1+g.num(9))
	}
}

func (g *gen) quoted(n string) string {
	if g.r.Bool(300) {
		return "`" + n + "`"
	}
	return n
}

// rare makes the less common statements.
func (g *gen) rare() (string, string) {
	r := g.r
	tbl := g.name("t")
	switch r.Intn(30) {
	case 0, 1:
		src := []string{"stdin", "STDIN"}[r.Intn(2)]
		cols, cw := "", "[]"
		if r.Bool(600) {
			a, b := g.name("c"), g.name("c")
			if r.Bool(400) {
				a = "\"" + a + "\""
			}
			cols, cw = " ("+a+", "+b+")", "["+strings.Trim(a, "\"")+" "+b+"]"
		}
		f := [][2]string{{"", "TEXT"}, {" CSV", "CSV"}, {" binary", "BINARY"}, {" FORMAT CSV", "CSV"}, {" WITH FORMAT BINARY", "BINARY"}, {" text", "TEXT"}}[r.Intn(6)]
		t := tbl
		if r.Bool(300) {
			t = "\"" + tbl + "\""
		}
		return g.kw("COPY") + " " + t + cols + " " + g.kw("FROM") + " " + src + f[0], fmt.Sprintf("COPY %s %s FROM %s %s", tbl, cw, src, f[1])
	case 2:
		d := g.name("d")
		return g.kw("ALTER DATABASE") + " " + tbl + " " + g.kw("RENAME TO") + " " + d, "ALTER DATABASE " + tbl + " " + d
	case 3:
		return g.kw("DROP INDEX IF EXISTS") + " " + tbl, "DROP INDEX ." + tbl + " true"
	case 4:
		x := g.name("x")
		return g.kw("DROP INDEX") + " " + tbl + "." + g.quoted(x), "DROP INDEX " + tbl + "." + x + " false"
	case 5:
		d := g.name("d")
		return g.kw("DROP DATABASE IF EXISTS") + " " + d, "DROP DATABASE " + d + " true"
	case 6, 7:
		x := g.name("x")
		var ct, cn []string
		for i := 0; i <= r.Intn(4); i++ {
			c := g.name("c")
			cn, ct = append(cn, c), append(ct, g.quoted(c))
		}
		ine, h := r.Bool(500), "CREATE INDEX "
		if ine {
			h = "CREATE INDEX IF NOT EXISTS "
		}
		return g.kw(h) + g.quoted(x) + " " + g.kw("ON") + " " + tbl + " (" + strings.Join(ct, ", ") + ")", fmt.Sprintf("CREATE INDEX %s %v %s:2:%v", tbl, ine, x, cn)
	case 8:
		a, b := g.name("c"), g.name("c")
		return g.kw("ALTER TABLE") + " " + tbl + " RENAME COLUMN " + a + " TO " + b, "ALTER TABLE " + tbl + " RENAME " + a + "->" + b
	case 9, 10:
		x := g.name("x")
		var ct, cn []string
		for i := 0; i <= r.Intn(3); i++ {
			c := g.name("c")
			cn, ct = append(cn, c), append(ct, g.quoted(c))
		}
		if r.Bool(300) {
			return "ALTER TABLE " + tbl + " ADD PRIMARY KEY (" + strings.Join(ct, ", ") + ")", ""
		}
		return "ALTER TABLE " + tbl + " ADD INDEX " + g.quoted(x) + " (" + strings.Join(ct, ", ") + ")", fmt.Sprintf("ALTER TABLE %s ADDIDX %s:2:%v", tbl, x, cn)
	case 11:
		c := g.name("c")
		return "ALTER TABLE " + tbl + " DROP COLUMN " + g.quoted(c), "ALTER TABLE " + tbl + " DROP " + c
	case 12:
		a, _ := g.coldef(g.name("c"))
		return "ALTER TABLE " + g.name("d") + "." + tbl + " ADD " + a, ""
	case 13:
		return "VACUUM " + tbl, "VACUUM " + tbl
	case 14:
		return "VACUUM ANALYZE " + tbl, "VACUUM " + tbl
	case 15:
		t2, t3 := g.name("t"), g.name("t")
		return g.kw("TRUNCATE") + " " + tbl + ", " + t2 + ", " + t3, fmt.Sprintf("TRUNCATE [%s %s %s]", tbl, t2, t3)
	case 16:
		t2 := g.name("t")
		return "DROP TABLE " + g.quoted(tbl) + ", " + t2 + " CASCADE", fmt.Sprintf("DROP TABLE [%s %s] false", tbl, t2)
	case 17, 18: // placeholders parsed as they are
		a, b := g.name("c"), g.name("c")
		l := g.lit()
		if r.Bool(500) {
			return "INSERT INTO " + tbl + " (" + a + ", " + b + ") VALUES (?, " + l.text + ")", ""
		}
		return "INSERT INTO " + tbl + " (" + a + ", " + b + ") VALUES ($1, $2), ($3, " + l.text + ")", ""
	case 19:
		return "UPDATE " + tbl + " SET " + g.name("c") + " = ?, " + g.name("c") + " = $2 WHERE " + g.name("c") + " = $1", ""
	case 20, 21:
		a := g.name("c")
		v := g.bare()
		return "INSERT INTO " + tbl + " (" + a + ") VALUES (" + v + ")", fmt.Sprintf("INSERT %s [%s =string:%s/0]", tbl, a, v)
	case 22:
		c, v := g.name("c"), g.bare()
		return "UPDATE " + tbl + " SET " + c + " = " + v, fmt.Sprintf("UPDATE %s [%s =string:%s/0] WHERE <none>", tbl, c, v)
	case 23, 24: // functions of several arguments, nested and literal ones
		f := []string{"POWER", "MOD", "CEIL", "LOG10", "COS", "TAN", "TRIM", "ROUND", "SQRT", "EXP", "PI", "RAND", "LOWER", "CURRENT_TIMESTAMP", "SIN", "LOG"}[r.Intn(16)]
		var as []string
		for i := r.Intn(3); i > 0; i-- {
			as = append(as, []string{g.name("c"), fmt.Sprint(g.num(100)), "'" + g.name("s") + "'"}[r.Intn(3)])
		}
		if f == "CURRENT_TIMESTAMP" {
			as = nil
		}
		return "SELECT " + f + "(" + strings.Join(as, ", ") + "), " + g.name("c") + " FROM " + tbl, ""
	case 25:
		d := g.name("d")
		return "SELECT " + tbl + ".*, " + tbl + "." + g.name("c") + " AS " + g.name("a") + " FROM " + d + "." + tbl, ""
	case 26: // several words, precision, constraints
		var ct []string
		ts := []string{"DOUBLE PRECISION", "DECIMAL(10,2)", "NUMERIC(5)", "VARCHAR(1)", "REAL", "TIMESTAMP WITH TIME ZONE", "CHARACTER VARYING(30)", "BIGSERIAL", "UUID", "LONGTEXT", "INT UNSIGNED"}
		for i := 0; i <= r.Intn(4); i++ {
			ct = append(ct, g.quoted(g.name("c"))+" "+ts[r.Intn(len(ts))]+[]string{"", " NOT NULL", " UNIQUE", " DEFAULT 5", " PRIMARY KEY"}[r.Intn(5)])
		}
		return "CREATE TABLE " + g.quoted(tbl) + " (" + strings.Join(ct, ", ") + ")", ""
	case 27: // index definitions inside
		a, b, x := g.name("c"), g.name("c"), g.name("x")
		return "CREATE TABLE " + tbl + " (" + a + " INT, " + b + " TEXT, " + []string{"KEY ", "INDEX "}[r.Intn(2)] + x + " (" + b + ")" + []string{"", ", PRIMARY KEY (" + a + ")"}[r.Intn(2)] + ")", ""
	case 28:
		return []string{"BEGIN TRANSACTION", "BEGIN IMMEDIATE", "END", "COMMIT TRANSACTION", "END TRANSACTION", "ROLLBACK TRANSACTION"}[r.Intn(6)], ""
	default: // order without direction, grouping by several columns, distinct, alias
		switch r.Intn(5) {
		case 0:
			return "SELECT " + g.name("c") + " FROM " + tbl + " ORDER BY " + g.name("o") + ", " + g.name("o") + " DESC", ""
		case 1:
			return "SELECT COUNT(*), " + g.name("c") + " FROM " + tbl + " GROUP BY " + g.name("g") + ", " + g.name("g"), ""
		case 2:
			return "SELECT DISTINCT " + g.name("c") + " FROM " + tbl + " AS " + g.name("a"), ""
		case 3:
			return "SELECT " + g.name("c") + " FROM " + tbl + " WHERE " + g.name("w") + " = " + g.bare() + " AND " + g.name("w") + " > " + g.bare(), ""
		default:
			return fmt.Sprintf("SELECT %d", g.num(100)), ""
		}
	}
}

func (g *gen) stmt() (string, string) {
	r := g.r
	if r.Bool(300) {
		return g.rare()
	}
	tbl := g.name("t")
	switch r.Intn(22) {
	case 0:
		d := g.name("d")
		if r.Bool(400) {
			return g.kw("CREATE DATABASE IF NOT EXISTS") + " " + d, "CREATE DATABASE " + d + " true"
		}
		return g.kw("CREATE DATABASE") + " " + d, "CREATE DATABASE " + d + " false"
	case 1, 2, 3:
		var ct, cw, cn []string
		for i := 0; i <= r.Intn(4); i++ {
			c := fmt.Sprintf("c%s_%d", g.tag, i)
			a, b := g.coldef(c)
			ct, cw, cn = append(ct, a), append(cw, b), append(cn, c)
		}
		idx := "[]"
		switch r.Intn(3) {
		case 0:
			ct[0] += " PRIMARY KEY"
			idx = fmt.Sprintf("[%s:1:[%s]]", cn[0], cn[0])
		case 1:
			ct = append(ct, "PRIMARY KEY ("+strings.Join(cn, ", ")+")")
			idx = fmt.Sprintf("[%s:1:%v]", strings.Join(cn, "_"), cn)
		}
		ine := r.Bool(300)
		h := "CREATE TABLE "
		if ine {
			h = "CREATE TABLE IF NOT EXISTS "
		}
		return g.kw(h) + tbl + " (" + strings.Join(ct, ", ") + ")", fmt.Sprintf("CREATE TABLE %s %v %s[%s]%s", tbl, ine, tbl, strings.Join(cw, "; "), idx)
	case 4:
		x, c := g.name("x"), g.name("c")
		return fmt.Sprintf("%s %s ON %s (%s)", g.kw("CREATE INDEX"), x, tbl, c), fmt.Sprintf("CREATE INDEX %s false %s:2:[%s]", tbl, x, c)
	case 5:
		d := g.name("d")
		return g.kw("DROP DATABASE") + " " + d, "DROP DATABASE " + d + " false"
	case 6:
		if r.Bool(500) {
			t2 := g.name("t")
			return "DROP TABLE IF EXISTS " + tbl + ", " + t2, fmt.Sprintf("DROP TABLE [%s %s] true", tbl, t2)
		}
		return g.kw("DROP TABLE") + " " + tbl, fmt.Sprintf("DROP TABLE [%s] false", tbl)
	case 7:
		return "DROP INDEX " + tbl, "DROP INDEX ." + tbl + " false"
	case 8:
		a, b := g.coldef(g.name("c"))
		return "ALTER TABLE " + tbl + " ADD COLUMN " + a, "ALTER TABLE " + tbl + " ADD " + b
	case 9:
		t2 := g.name("t")
		return "ALTER TABLE " + tbl + " RENAME TO " + t2, "ALTER TABLE " + tbl + " TO " + t2
	case 10, 11, 12:
		nc := 1 + r.Intn(4)
		var cn []string
		for i := 0; i < nc; i++ {
			cn = append(cn, fmt.Sprintf("c%s_%d", g.tag, i))
		}
		w := "INSERT " + tbl
		var rows []string
		for k := 0; k <= r.Intn(3); k++ {
			var vt, vw []string
			for i := 0; i < nc; i++ {
				l := g.lit()
				vt = append(vt, l.text)
				vw = append(vw, cn[i]+" ="+l.want)
			}
			rows = append(rows, "("+strings.Join(vt, ", ")+")")
			w += " [" + strings.Join(vw, "; ") + "]"
		}
		return g.kw("INSERT INTO") + " " + tbl + " (" + strings.Join(cn, ", ") + ") " + g.kw("VALUES") + " " + strings.Join(rows, ", "), w
	case 13, 14:
		wt, ww := g.where()
		var st, sw []string
		for i := 0; i <= r.Intn(3); i++ {
			c := g.name("c")
			if r.Bool(250) {
				op := []string{"+", "-", "*", "/", "%"}[r.Intn(5)]
				n := fmt.Sprint(1 + r.Intn(50))
				st = append(st, fmt.Sprintf("%s = %s %s %s", c, c, op, n))
				sw = append(sw, fmt.Sprintf("%s fn:%s%q args:%s", c, op, []string{}, c+", "+n))
				continue
			}
			l := g.lit()
			st = append(st, c+" = "+l.text)
			sw = append(sw, c+" ="+l.want)
		}
		return g.kw("UPDATE") + " " + tbl + " " + g.kw("SET") + " " + strings.Join(st, ", ") + wt, "UPDATE " + tbl + " [" + strings.Join(sw, "; ") + "] WHERE " + ww
	case 15:
		wt, ww := g.where()
		return g.kw("DELETE FROM") + " " + tbl + wt, "DELETE " + tbl + " WHERE " + ww
	case 16:
		switch r.Intn(5) {
		case 0:
			return g.kw("BEGIN"), "BEGIN"
		case 1:
			return g.kw("COMMIT"), "COMMIT"
		case 2:
			return g.kw("ROLLBACK"), "ROLLBACK"
		case 3:
			return g.kw("USE") + " " + tbl, "USE " + tbl
		default:
			return "TRUNCATE TABLE " + tbl, "TRUNCATE [" + tbl + "]"
		}
	default:
		wt, ww := g.where()
		var st, sw []string
		gb, gw := "", ""
		switch r.Intn(5) {
		case 0:
			st, sw = []string{"*"}, []string{"*"}
		case 1, 2:
			for i := 0; i <= r.Intn(3); i++ {
				c := g.name("c")
				st, sw = append(st, c), append(sw, c)
			}
		default:
			fs := []string{"COUNT", "SUM", "AVG", "MIN", "MAX", "ABS", "FLOOR", "UPPER", "NOW", "sum", "Abs"}
			for i := 0; i <= r.Intn(3); i++ {
				f := fs[r.Intn(len(fs))]
				c := g.name("c")
				if strings.EqualFold(f, "COUNT") && r.Bool(500) {
					c = "*"
				}
				if f == "NOW" {
					st, sw = append(st, "NOW()"), append(sw, fmt.Sprintf("fn:NOW%q", []string{}))
					continue
				}
				st = append(st, f+"("+c+")")
				sw = append(sw, fmt.Sprintf("fn:%s%q", strings.ToUpper(f), []string{c}))
			}
			if r.Bool(400) {
				c := g.name("g")
				gb, gw = " "+g.kw("GROUP BY")+" "+c, c
			}
		}
		from, fw := tbl, tbl
		if r.Bool(150) {
			t2 := g.name("t")
			from, fw = tbl+", "+t2, tbl+" "+t2
		}
		ob, ow := "", ""
		if r.Bool(400) {
			c := g.name("o")
			ob, ow = " "+g.kw("ORDER BY")+" "+c+" ASC", c+" ASC"
			if r.Bool(500) {
				c2 := g.name("o")
				ob, ow = " ORDER BY "+c+" DESC, "+c2+" asc", c+" DESC "+c2+" ASC"
			} else if r.Bool(400) {
				c2 := g.name("o")
				ob, ow = " ORDER BY "+c+", "+c2+" DESC", c+" ASC "+c2+" DESC"
			}
		}
		lim, off := 0, 0
		lt := ""
		if r.Bool(400) {
			lim = 1 + g.num(90)
			lt = fmt.Sprintf(" LIMIT %d", lim)
			if r.Bool(500) {
				off = 1 + g.num(90)
				lt += fmt.Sprintf(" OFFSET %d", off)
			}
		}
		return g.kw("SELECT") + " " + strings.Join(st, ", ") + " " + g.kw("FROM") + " " + from + wt + gb + ob + lt,
			fmt.Sprintf("SELECT %q FROM [%s] WHERE %s GROUP %q ORDER [%s] LIMIT %d+%d", sw, fw, ww, gw, ow, off, lim)
	}
}

// mangle loses, repeats, moves or cuts words of a text.
func mangle(r *simrt.Rng, s string) string {
	w := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ", ",", " , ").Replace(s))
	for k := 0; k <= r.Intn(3) && len(w) > 0; k++ {
		i, j := r.Intn(len(w)), r.Intn(len(w))
		switch r.Intn(5) {
		case 0:
			w = append(w[:i:i], w[i+1:]...)
		case 1:
			w = append(w[:i:i], append([]string{w[j]}, w[i:]...)...)
		case 2:
			w[i], w[j] = w[j], w[i]
		case 3:
			w = w[:i]
		default:
			w[i] = []string{"NULL", "(", ")", "*", ",", "'x", "=", "SELECT", "-", "$1", "?", ";", "--", "/*", "\x00", "é"}[r.Intn(16)]
		}
	}
	return strings.Join(w, " ")
}

// input makes one parser input: text and its required meaning; want is "!" for an
// input that must be rejected and "" when only the fresh parser's answer is known.
func (g *gen) input(bad int) (string, string) {
	r := g.r
	if r.Bool(bad) {
		t := g.name("t")
		switch r.Intn(18) {
		case 12, 13, 14: // any text at all: a statement with words lost, repeated or misplaced
			a, _ := g.stmt()
			return mangle(r, a), ""
		case 15: // accepted by the grammar, but nothing the parser supports
			return []string{
				"INSERT INTO " + t + " SELECT a FROM " + t, "INSERT INTO " + t + " DEFAULT VALUES",
				"UPDATE " + t + " SET (a, b) = (1, 2)", "CREATE VIEW " + t + " AS SELECT * FROM u", "DROP VIEW " + t,
				"CREATE TABLE " + t + " (a INT, PRIMARY KEY (ABS(a), a))", "CREATE INDEX " + t + " ON u (ABS(a))",
				"CREATE TABLE " + t + " AS SELECT * FROM u", "WITH " + t + " AS (SELECT a FROM u) SELECT * FROM " + t,
				"SELECT CASE WHEN a = 1 THEN 2 ELSE 3 END FROM " + t, "SELECT * FROM (SELECT a FROM " + t + ")", "ATTACH DATABASE 'x' AS " + t,
			}[r.Intn(12)], ""
		case 16:
			return "SELECT '" + t, "!"
		case 17:
			return "SELECT * FROM " + t + " WHERE (a = 1", "!"
		case 0:
			return "", "!"
		case 1:
			return ";", "!"
		case 2:
			return "SELEC * FROM " + t, "!"
		case 3:
			return "SELECT * FROM", ""
		case 4:
			return "INSERT INTO " + t + " (a, b VALUES (1, 2)", "!"
		case 5:
			return "CREATE TABLE " + t + " (", "!"
		case 6:
			return "UPDATE " + t + " SET", "!"
		case 7:
			return "SELECT * FROM " + t + " WHERE a = ", "!"
		case 8:
			return "DELETE " + t, "!"
		case 9:
			return ") " + t, "!"
		case 10:
			a, _ := g.stmt()
			return a + "; SELEC " + t, "!"
		default:
			a, _ := g.stmt()
			return a + " ) (", "!"
		}
	}
	if r.Bool(40) {
		t := g.name("t")
		return []string{"   ", "-- comment " + t, "EXPLAIN SELECT * FROM " + t, "PRAGMA " + t, "\n;;\n", "VACUUM", "SAVEPOINT " + t}[r.Intn(7)], ""
	}
	n := 1
	if r.Bool(200) {
		n = 2 + r.Intn(2)
	}
	var ts, ws []string
	for i := 0; i < n; i++ {
		a, b := g.stmt()
		ts, ws = append(ts, a), append(ws, b)
	}
	t := strings.Join(ts, "; ")
	if r.Bool(300) {
		t += ";"
	}
	switch r.Intn(16) {
	case 0:
		t = "/* it's; " + g.name("c") + " */ " + t
	case 1:
		t = "-- it's \"" + g.name("c") + "\n" + t
	case 2:
		t += " -- don't; " + g.name("c")
	case 3:
		t = " \n\t" + t + "\n\n"
	case 4:
		if r.Bool(200) { // a long comment
			t = "/* " + strings.Repeat(g.name("c")+" ", 1+r.Intn(600)) + "*/" + t
		}
	}
	for _, w := range ws {
		if w == "" {
			return t, ""
		}
	}
	return t, strings.Join(ws, " ;; ")
}
