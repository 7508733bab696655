package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"
	"unsafe"

	"github.com/cybergarage/go-sqlparser/sql"
	sqlnet "github.com/cybergarage/go-sqlparser/sql/net"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/query/response/resultset"
	"github.com/cybergarage/go-sqlparser/sql/stmt"
	"github.com/cybergarage/go-sqlparser/sql/system"
	"verif.local/sim/simrt"
	"verif.local/sim/ssync"
)

// ---- the operations: their SQL text and their meaning in the reference service ----

var svcGroups = []string{"x", "X", "z z", "z  z", "it's", "né", ""}

// svcLit is a text as a SQL literal.
func svcLit(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }

func svcTable(n int) string { return fmt.Sprintf("t%d", n%2) }

type pred struct {
	text string
	eval func(r map[string]any) bool
}

func svcNum(v any) float64 {
	f, _ := v.(float64)
	return f
}

func svcPred(kind, n int) pred {
	g := svcGroups[n%6]
	k := float64(n)
	switch kind % 8 {
	case 0:
		return pred{"", func(map[string]any) bool { return true }}
	case 1:
		return pred{fmt.Sprintf(" WHERE id = %d", n), func(r map[string]any) bool { return svcNum(r["id"]) == k }}
	case 2:
		return pred{fmt.Sprintf(" WHERE a >= %d AND g = %s", n, svcLit(g)), func(r map[string]any) bool { return svcNum(r["a"]) >= k && r["g"] == g }}
	case 3:
		return pred{fmt.Sprintf(" WHERE id < %d OR a = %d", n, n+1), func(r map[string]any) bool { return svcNum(r["id"]) < k || svcNum(r["a"]) == k+1 }}
	case 5:
		return pred{fmt.Sprintf(" WHERE a != %d", n), func(r map[string]any) bool { return svcNum(r["a"]) != k }}
	case 6:
		return pred{fmt.Sprintf(" WHERE id > %d AND b <= %d.5", n, n+2), func(r map[string]any) bool { return svcNum(r["id"]) > k && svcNum(r["b"]) <= k+2.5 }}
	case 7:
		return pred{fmt.Sprintf(" WHERE g <> %s", svcLit(g)), func(r map[string]any) bool { return r["g"] != g }}
	default:
		return pred{fmt.Sprintf(" WHERE g = %s", svcLit(g)), func(r map[string]any) bool { return r["g"] == g }}
	}
}

var svcSelects = []string{"id, a", "g, b, id", "*", "b", "id, x", "id, ABS(a)", "FLOOR(b), g", "CEIL(b), id, g", "ABS(b), FLOOR(a)", "CEIL(a), ABS(id), b", "FLOOR(id), b, a, g, id", "a, id"}

var svcOrders = []string{"", "", " ORDER BY id", " ORDER BY a DESC, id ASC", " ORDER BY g, b DESC"}

// svcLess is the order of two rows by a column.
func svcLess(a, b any) bool {
	if s, ok := a.(string); ok {
		return s < fmt.Sprint(b)
	}
	x, _ := strconv.ParseFloat(svcShow(a), 64)
	y, _ := strconv.ParseFloat(svcShow(b), 64)
	return x < y
}

// svcRefVal is the value of a selected column.
func svcRefVal(c string, r map[string]any) any {
	f, arg, ok := strings.Cut(strings.TrimSuffix(c, ")"), "(")
	if !ok {
		return r[c]
	}
	v := svcNum(r[arg])
	switch f {
	case "ABS":
		return math.Abs(v)
	case "FLOOR":
		return math.Floor(v)
	}
	return math.Ceil(v)
}

var svcAggrs = []string{"COUNT(*)", "SUM(a)", "MAX(b)", "AVG(a)", "MIN(id)", "SUM(b)", "MAX(a)", "AVG(id)", "MIN(b)"}

// svcAggrPick is the list of aggregate functions of a request.
func svcAggrPick(n, more int) []string {
	k := len(svcAggrs)
	out := []string{svcAggrs[n/20%k]}
	for i := 0; i < more%3; i++ {
		if a := svcAggrs[(n/20*2+n%5+i*2+1)%k]; indexOf(out, a) < 0 {
			out = append(out, a)
		}
	}
	return out
}

// svcSQL is what the client sends.
func svcSQL(o Op) string {
	t := svcTable(o.i(0))
	p := svcPred(o.i(1), o.i(2))
	n := o.i(2)
	switch o.K {
	case "create":
		return "CREATE TABLE " + t + " (id INT PRIMARY KEY, g TEXT, a INT, b DOUBLE)"
	case "drop":
		return "DROP TABLE " + t
	case "insert":
		c, xs := "id, g, a, b", ""
		if o.i(3)%4 == 0 {
			c, xs = c+", x", fmt.Sprintf(", %d", n+7)
		}
		var rows []string
		for k := 0; k <= o.i(1)%3; k++ {
			rows = append(rows, fmt.Sprintf("(%d, %s, %d, %v%s)", n+k, svcLit(svcGroups[(n+k)%7]), n*2-k, float64(n)+0.5, xs))
		}
		return "INSERT INTO " + t + " (" + c + ") VALUES " + strings.Join(rows, ", ")
	case "update":
		s := []string{"a = a + 3", "g = 'x'", "b = 2.25", "a = 5, b = b * 2", "x = 1"}[o.i(3)%5]
		return "UPDATE " + t + " SET " + s + p.text
	case "delete":
		return "DELETE FROM " + t + p.text
	case "select":
		q := "SELECT " + svcSelects[o.i(5)%len(svcSelects)] + " FROM " + t + p.text + svcOrders[o.i(3)%5]
		if l := o.i(3) / 5 % 3; l > 0 {
			q += fmt.Sprintf(" LIMIT %d", l)
			if f := o.i(3) / 15 % 3; f > 0 {
				q += fmt.Sprintf(" OFFSET %d", f)
			}
		}
		return q
	case "aggr":
		f := strings.Join(svcAggrPick(o.i(3), o.i(5)), ", ")
		if o.i(3)/10%2 == 1 {
			return "SELECT g, " + f + " FROM " + t + p.text + " GROUP BY g"
		}
		return "SELECT " + f + " FROM " + t + p.text
	case "addcol":
		return "ALTER TABLE " + t + " ADD COLUMN x INT"
	case "dropcol":
		return "ALTER TABLE " + t + " DROP COLUMN x"
	case "addidx":
		return "CREATE INDEX i" + fmt.Sprint(n%2) + " ON " + t + " (a)"
	case "dropidx":
		return "DROP INDEX " + t + ".i" + fmt.Sprint(n%2)
	case "catalog":
		return system.SchemaColumnsQuery
	case "use":
		return fmt.Sprintf("USE d%d", o.i(0)%2)
	case "bad":
		return []string{"SELEC * FROM t0", "CREATE TABLE", "INSERT INTO t0 (id) VALUES (", "UPDATE SET", "DROP", "SELECT FROM WHERE",
			"INSERT INTO t0 SELECT id FROM t1", "UPDATE t0 SET (a, b) = (1, 2)", "PRAGMA t0", "", ";", "INSERT INTO t0 (id) VALUES ('1", "SELECT * FROM t0; SELECT * FROM t1", "DELETE FROM t0 WHERE (id = 1"}[n%14]
	case "who":
		return "\\who"
	case "prep":
		// a prepared statement: template number and parameters
		return fmt.Sprintf("\\exec %d %s %d %s", o.i(1)%3, t, n, svcGroups[o.i(3)%6])
	case "trunc":
		return "TRUNCATE TABLE " + t
	case "tx":
		return []string{"BEGIN", "COMMIT", "ROLLBACK"}[n%3]
	case "login":
		return fmt.Sprintf("\\login %d", n)
	case "path":
		return fmt.Sprintf("\\path s%d s%d", n, o.i(1))
	case "upgrade":
		return "\\upgrade"
	case "sessions":
		return "\\sessions"
	case "kill":
		return fmt.Sprintf("\\kill %d", o.i(0))
	}
	return ""
}

// svcPrepared are the texts of the service's prepared statements.
var svcPrepared = []string{
	"INSERT INTO %s (id, g, a, b) VALUES ($1, $2, $1, 0.5)",
	"DELETE FROM %s WHERE id = ? AND g = ?",
	"SELECT id, g FROM %s WHERE a >= $1 AND g = $2",
}

func svcShow(v any) string {
	switch v := v.(type) {
	case nil:
		return "NULL"
	case float64:
		return strconv.FormatFloat(v, 'g', 10, 64)
	case float32:
		return strconv.FormatFloat(float64(v), 'g', 6, 64)
	}
	return fmt.Sprint(v)
}

// refTable and refService: the sequential reference.
type refTable struct {
	cols []string
	idxs []string
	rows []map[string]any
}

type refService struct {
	names  []string // creation order of "db/table"
	tables map[string]*refTable
	db     map[int]string // session -> database
	user   map[int]string
	path   map[int][]string
}

func indexOf(l []string, s string) int {
	for i, x := range l {
		if x == s {
			return i
		}
	}
	return -1
}

func (m *refService) apply(sess int, user string, o Op) string {
	db, ok := m.db[sess]
	if !ok {
		db = "d0"
	}
	key := db + "/" + svcTable(o.i(0))
	t := m.tables[key]
	p := svcPred(o.i(1), o.i(2))
	n := o.i(2)
	done := func(k int) string { return fmt.Sprintf("OK %d", k) }
	switch o.K {
	case "login":
		m.user[sess] = fmt.Sprintf("%s.%d", user[:strings.IndexByte(user, '.')], n)
		return "OK"
	case "path":
		for _, x := range []string{fmt.Sprintf("s%d", n), fmt.Sprintf("s%d", o.i(1))} {
			if indexOf(m.path[sess], x) < 0 {
				m.path[sess] = append(m.path[sess], x)
			}
		}
		return "OK"
	case "upgrade", "sessions", "tx":
		return "OK"
	case "use":
		m.path[sess] = nil
		m.db[sess] = fmt.Sprintf("d%d", o.i(0)%2)
		return "OK"
	case "who":
		if u := m.user[sess]; u != "" {
			user = u
		}
		return "OK " + user + "@" + db + strings.Join(m.path[sess], ",")
	case "bad":
		return "ERR"
	case "kill":
		return "OK"
	case "create":
		if t != nil {
			return "ERR"
		}
		m.tables[key] = &refTable{cols: []string{"id", "g", "a", "b"}, idxs: []string{"id"}}
		m.names = append(m.names, key)
		return "OK"
	case "catalog":
		var rows []string
		types := map[string]string{"id": "INT", "g": "TEXT", "a": "INT", "b": "DOUBLE", "x": "INT"}
		for _, nm := range m.names {
			if strings.HasPrefix(nm, db+"/") {
				for _, c := range m.tables[nm].cols {
					rows = append(rows, nm[3:]+"."+c+":"+types[c])
				}
			}
		}
		return "OK " + strings.Join(rows, ";")
	}
	if t == nil {
		return "ERR"
	}
	var rows []map[string]any
	switch o.K {
	case "drop":
		delete(m.tables, key)
		i := indexOf(m.names, key)
		m.names = append(append([]string{}, m.names[:i]...), m.names[i+1:]...)
		return "OK"
	case "addcol":
		if indexOf(t.cols, "x") >= 0 {
			return "ERR"
		}
		t.cols = append(t.cols, "x")
		return "OK"
	case "dropcol":
		i := indexOf(t.cols, "x")
		if i < 0 {
			return "ERR"
		}
		t.cols = append(append([]string{}, t.cols[:i]...), t.cols[i+1:]...)
		for _, r := range t.rows {
			delete(r, "x")
		}
		return "OK"
	case "addidx":
		if nm := fmt.Sprintf("i%d", n%2); indexOf(t.idxs, nm) < 0 {
			t.idxs = append(t.idxs, nm)
			return "OK"
		}
		return "ERR"
	case "dropidx":
		i := indexOf(t.idxs, fmt.Sprintf("i%d", n%2))
		if i < 0 {
			return "ERR"
		}
		t.idxs = append(append([]string{}, t.idxs[:i]...), t.idxs[i+1:]...)
		return "OK"
	case "insert":
		x := o.i(3)%4 == 0
		if x && indexOf(t.cols, "x") < 0 {
			return "ERR"
		}
		for k := 0; k <= o.i(1)%3; k++ {
			r := map[string]any{"id": float64(n + k), "g": svcGroups[(n+k)%7], "a": float64(n*2 - k), "b": float64(n) + 0.5}
			if x {
				r["x"] = float64(n + 7)
			}
			t.rows = append(t.rows, r)
		}
		return done(o.i(1)%3 + 1)
	case "update":
		if o.i(3)%5 == 4 && indexOf(t.cols, "x") < 0 {
			return "ERR"
		}
		k := 0
		for _, r := range t.rows {
			if !p.eval(r) {
				continue
			}
			k++
			switch o.i(3) % 5 {
			case 0:
				r["a"] = svcNum(r["a"]) + 3
			case 1:
				r["g"] = "x"
			case 2:
				r["b"] = 2.25
			case 3:
				r["a"], r["b"] = 5.0, svcNum(r["b"])*2
			case 4:
				r["x"] = 1.0
			}
		}
		return done(k)
	case "delete":
		for _, r := range t.rows {
			if !p.eval(r) {
				rows = append(rows, r)
			}
		}
		k := len(t.rows) - len(rows)
		t.rows = rows
		return done(k)
	case "trunc":
		t.rows = nil
		return "OK"
	case "prep":
		g := svcGroups[o.i(3)%6]
		switch o.i(1) % 3 {
		case 0:
			t.rows = append(t.rows, map[string]any{"id": float64(n), "g": g, "a": float64(n), "b": 0.5})
			return done(1)
		case 1:
			for _, r := range t.rows {
				if !(svcNum(r["id"]) == float64(n) && r["g"] == g) {
					rows = append(rows, r)
				}
			}
			k := len(t.rows) - len(rows)
			t.rows = rows
			return done(k)
		}
		var out []string
		for _, r := range t.rows {
			if svcNum(r["a"]) >= float64(n) && r["g"] == g {
				out = append(out, svcShow(r["id"])+","+svcShow(r["g"]))
			}
		}
		return "OK " + strings.Join(out, ";")
	case "select", "aggr":
		for _, r := range t.rows {
			if p.eval(r) {
				rows = append(rows, r)
			}
		}
	}
	var out []string
	if o.K == "select" {
		cols := strings.Split(svcSelects[o.i(5)%len(svcSelects)], ", ")
		if cols[0] == "*" {
			cols = t.cols
		}
		for _, c := range cols {
			if indexOf(t.cols, c) < 0 && c[len(c)-1] != ')' {
				return "ERR"
			}
		}
		rows = append([]map[string]any{}, rows...)
		sort.SliceStable(rows, func(i, j int) bool {
			a, b := rows[i], rows[j]
			switch o.i(3) % 5 {
			case 2:
				return svcNum(a["id"]) < svcNum(b["id"])
			case 3:
				return svcNum(a["a"]) > svcNum(b["a"]) || svcNum(a["a"]) == svcNum(b["a"]) && svcNum(a["id"]) < svcNum(b["id"])
			case 4:
				return a["g"].(string) < b["g"].(string) || a["g"] == b["g"] && svcNum(a["b"]) > svcNum(b["b"])
			}
			return false
		})
		if l := o.i(3) / 5 % 3; l > 0 {
			f := min(o.i(3)/15%3, len(rows))
			rows = rows[f:min(f+l, len(rows))]
		}
		for _, r := range rows {
			var vs []string
			for _, c := range cols {
				vs = append(vs, svcShow(svcRefVal(c, r)))
			}
			out = append(out, strings.Join(vs, ","))
		}
		return "OK " + strings.Join(out, ";")
	}
	// aggregates
	fns := svcAggrPick(o.i(3), o.i(5))
	eval := func(rs []map[string]any) string {
		var vs []string
		for _, f := range fns {
			col := f[strings.IndexByte(f, '(')+1 : len(f)-1]
			sum, lo, hi := 0.0, 0.0, 0.0
			for i, r := range rs {
				v := svcNum(r[col])
				sum += v
				if i == 0 || v < lo {
					lo = v
				}
				if i == 0 || v > hi {
					hi = v
				}
			}
			var v float64
			switch f[:3] {
			case "COU":
				v = float64(len(rs))
			case "SUM":
				v = sum
			case "AVG":
				v = sum / float64(len(rs))
			case "MIN":
				v = lo
			default:
				v = hi
			}
			vs = append(vs, svcShow(v))
		}
		return strings.Join(vs, ",")
	}
	if o.i(3)/10%2 == 0 {
		if len(rows) == 0 {
			return "EMPTY" // the answer over no rows is not specified here
		}
		return "OK " + eval(rows)
	}
	groups := map[string][]map[string]any{}
	for _, r := range rows {
		g := r["g"].(string)
		groups[g] = append(groups[g], r)
	}
	for g, rs := range groups {
		out = append(out, g+","+eval(rs))
	}
	sort.Strings(out)
	return "OK " + strings.Join(out, ";")
}

// ---- the service: the library's parts around an in-memory store ----

type svcStore struct {
	db   string
	sc   query.Schema
	rows []map[string]any // never modified in place
}

// svcDB holds the tables of a database; the statements of different databases run at the same time.
type svcDB struct {
	mu     ssync.Mutex
	tables []*svcStore
}

type svcExec struct {
	id, sess int
	user     string
	ans      string
	at       int64
}

type service struct {
	e     *Env
	mgr   sqlnet.ConnManager
	mu    ssync.RWMutex
	dbs   [2]svcDB
	log   []svcExec
	nsess int
	live  int
	stop  bool
	gone  [300]sqlnet.Conn // killed and removed by another session
	ngone int
	share bool // sessions share the parsed form of equal queries
	cmu   ssync.Mutex
	cache map[string][]query.Statement
}

func (s *service) isGone(c sqlnet.Conn) bool {
	for i := 0; i < s.ngone; i++ {
		if s.gone[i] == c {
			return true
		}
	}
	return false
}

// wire is the transport of a session; after an upgrade two connection objects share it, and either may close it.
type wire struct {
	*tconn
	up bool
}

func (w *wire) Close() error {
	if w.up && w.closed {
		return nil
	}
	if err := w.tconn.Close(); err != nil && !(w.up && w.closed) {
		return err
	}
	return nil
}

func (s *service) database(db string) *svcDB {
	if db == "d1" {
		return &s.dbs[1]
	}
	return &s.dbs[0]
}

func (s *service) find(db, name string) (*svcStore, int) {
	for i, t := range s.database(db).tables {
		if t.db == db && t.sc.TableName() == name {
			return t, i
		}
	}
	return nil, -1
}

var errSvc = errors.New("service error")

func svcMatch(x query.Expr, row map[string]any) (bool, error) {
	switch x := x.(type) {
	case nil:
		return true, nil
	case *query.AndExpr:
		a, err := svcMatch(x.Left(), row)
		if err != nil || !a {
			return false, err
		}
		return svcMatch(x.Right(), row)
	case *query.OrExpr:
		a, err := svcMatch(x.Left(), row)
		if err != nil || a {
			return a, err
		}
		return svcMatch(x.Right(), row)
	case *query.CmpExpr:
		v, ok := row[x.Left().Name()]
		if !ok {
			return false, errSvc
		}
		cmp := 0
		switch v := v.(type) {
		case string:
			cmp = strings.Compare(v, fmt.Sprint(x.Right().Value()))
		default:
			a, err := strconv.ParseFloat(svcShow(v), 64)
			if err != nil {
				return false, nil
			}
			b, err := strconv.ParseFloat(fmt.Sprint(x.Right().Value()), 64)
			if err != nil {
				return false, errSvc
			}
			switch {
			case a < b:
				cmp = -1
			case a > b:
				cmp = 1
			}
		}
		switch x.Operator() {
		case query.EQ:
			return cmp == 0, nil
		case query.NEQ:
			return cmp != 0, nil
		case query.LT:
			return cmp < 0, nil
		case query.LE:
			return cmp <= 0, nil
		case query.GT:
			return cmp > 0, nil
		case query.GE:
			return cmp >= 0, nil
		}
	}
	return false, errSvc
}

func (t *svcStore) selectRows(w query.Condition) ([]map[string]any, error) {
	var out []map[string]any
	for _, r := range t.rows {
		ok, err := svcMatch(w.Expr(), r)
		if err != nil {
			return nil, err
		}
		if ok {
			out = append(out, r)
		}
	}
	return out, nil
}

// exec executes one parsed statement. finish, when not nil, renders the answer
// after the lock has been released.
func (s *service) exec(conn sqlnet.Conn, st query.Statement) (ans string, finish func() string, err error) {
	db := conn.Database()
	switch st := st.(type) {
	case query.CreateTable:
		if t, _ := s.find(db, st.TableName()); t != nil {
			return "", nil, errSvc
		}
		d := s.database(db)
		d.tables = append(d.tables, &svcStore{db: db, sc: st.Schema()})
		return "OK", nil, nil
	case query.DropTable:
		for _, x := range st.Tables() {
			_, i := s.find(db, x.TableName())
			if i < 0 {
				return "", nil, errSvc
			}
			d := s.database(db)
			d.tables = append(append([]*svcStore{}, d.tables[:i]...), d.tables[i+1:]...)
		}
		return "OK", nil, nil
	case query.AlterTable, query.CreateIndex, query.DropIndex:
		at, ok := st.(query.AlterTable)
		if !ok {
			if at, err = query.NewAlterTableFrom(st); err != nil {
				return "", nil, err
			}
		}
		t, _ := s.find(db, at.TableName())
		if t == nil {
			return "", nil, errSvc
		}
		if c, ok := at.AddColumn(); ok {
			if _, err := t.sc.LookupColumn(c.Name()); err == nil {
				return "", nil, errSvc
			}
		}
		if x, ok := at.AddIndex(); ok {
			if _, err := t.sc.LookupIndex(x.Name()); err == nil {
				return "", nil, errSvc
			}
		}
		if err := t.sc.Alter(at); err != nil {
			return "", nil, err
		}
		if c, ok := at.DropColumn(); ok {
			t.rows = t.mapRows(t.rows, func(r map[string]any) { delete(r, c.Name()) })
		}
		return "OK", nil, nil
	case query.Insert:
		t, _ := s.find(db, st.TableName())
		if t == nil {
			return "", nil, errSvc
		}
		var rows []map[string]any
		for _, cs := range st.Values() {
			if err := cs.SetSchema(t.sc); err != nil {
				return "", nil, err
			}
			r := map[string]any{}
			for _, c := range cs {
				r[c.Name()] = c.Value()
			}
			rows = append(rows, r)
		}
		t.rows = append(append([]map[string]any{}, t.rows...), rows...)
		return fmt.Sprintf("OK %d", len(rows)), nil, nil
	case query.Update:
		t, _ := s.find(db, st.TableName())
		if t == nil {
			return "", nil, errSvc
		}
		if err := st.Columns().SetSchema(t.sc); err != nil {
			return "", nil, err
		}
		k := 0
		var ferr error
		rows := t.mapRows(t.rows, func(r map[string]any) {
			ok, err := svcMatch(st.Where().Expr(), r)
			if err != nil || !ok {
				ferr = errors.Join(ferr, err)
				return
			}
			k++
			old := map[string]any{}
			for n, v := range r {
				old[n] = v
			}
			for _, c := range st.Columns() {
				f, ok := c.Function()
				if !ok {
					r[c.Name()] = c.Value()
					continue
				}
				ex, err := f.Executor()
				if err == nil {
					r[c.Name()], err = ex.Execute(old)
				}
				ferr = errors.Join(ferr, err)
			}
		})
		if ferr != nil {
			return "", nil, ferr
		}
		t.rows = rows
		return fmt.Sprintf("OK %d", k), nil, nil
	case query.Delete:
		t, _ := s.find(db, st.TableName())
		if t == nil {
			return "", nil, errSvc
		}
		var rows []map[string]any
		for _, r := range t.rows {
			ok, err := svcMatch(st.Where().Expr(), r)
			if err != nil {
				return "", nil, err
			}
			if !ok {
				rows = append(rows, r)
			}
		}
		k := len(t.rows) - len(rows)
		t.rows = rows
		return fmt.Sprintf("OK %d", k), nil, nil
	case query.Select:
		if system.IsSchemaColumsQuery(st) {
			var scs []query.Schema
			for _, t := range s.database(db).tables {
				if t.db == db {
					scs = append(scs, t.sc)
				}
			}
			rs, err := system.NewSchemaColumnsResultSetFromSchemas(scs)
			if err != nil {
				return "", nil, err
			}
			return "", func() string {
				l, err := system.NewSchemaColumnsResultSetFromResultSet(rs)
				if err != nil {
					return "ERR"
				}
				var out []string
				for _, c := range l.Columns() {
					out = append(out, c.Table()+"."+c.Name()+":"+c.DataType().String())
				}
				return "OK " + strings.Join(out, ";")
			}, nil
		}
		if len(st.From()) != 1 {
			return "", nil, errSvc
		}
		t, _ := s.find(db, st.From()[0].TableName())
		if t == nil {
			return "", nil, errSvc
		}
		maps, err := t.selectRows(st.Where())
		if err != nil {
			return "", nil, err
		}
		if os := st.OrderBy().Orders(); len(os) > 0 {
			sort.SliceStable(maps, func(i, j int) bool {
				for _, o := range os {
					a, b := maps[i][o.ColumnName()], maps[j][o.ColumnName()]
					if o.IsDesc() {
						a, b = b, a
					}
					if svcLess(a, b) {
						return true
					}
					if svcLess(b, a) {
						return false
					}
				}
				return false
			})
		}
		sels := st.Selectors()
		if sels.IsAsterisk() {
			sels = t.sc.Selectors()
		}
		base := resultset.NewSchema(resultset.WithSchemaDatabaseName(db), resultset.WithSchemaTableName(t.sc.TableName()), resultset.WithSchemaColumns(resultset.NewColumnsFrom(t.sc.Columns())))
		if sels.HasAggregator() {
			if len(maps) == 0 && st.GroupBy().ColumnName() == "" {
				return "EMPTY", nil, nil
			}
			src := resultset.NewResultSet(resultset.WithResultSetSchema(base), resultset.WithResultSetRowsOf(maps))
			opts := []resultset.AggregatedResultSetOptions{resultset.WithAggregatedResultSetTableSchema(t.sc), resultset.WithAggregatedResultSetSelectors(sels), resultset.WithAggregatedResultSetSource(src)}
			grouped := st.GroupBy().ColumnName() != ""
			if grouped {
				opts = append(opts, resultset.WithAggregatedResultSetGroupBy(st.GroupBy()))
			}
			rs, err := resultset.NewAggregatedResultSetFrom(opts...)
			if err != nil {
				return "", nil, err
			}
			return "", func() string { return svcRender(rs, grouped) }, nil
		}
		sch, err := resultset.NewSchemaFrom(resultset.WithSchemaDatabaseName(db), resultset.WithSchemaTableSchema(t.sc), resultset.WithSchemaSelectors(sels))
		if err != nil {
			return "", nil, err
		}
		rs := resultset.NewResultSet(resultset.WithResultSetSchema(sch), resultset.WithResultSetRowsOf(maps),
			resultset.WithResultSetLimit(st.Limit().Limit()), resultset.WithResultSetOffset(st.Limit().Offset()))
		return "", func() string { return svcRender(rs, false) }, nil
	case query.Truncate:
		for _, x := range st.Tables() {
			t, _ := s.find(db, x.TableName())
			if t == nil {
				return "", nil, errSvc
			}
			t.rows = nil
		}
		return "OK", nil, nil
	case query.Use:
		conn.SetDatabase(st.DatabaseName())
		return "OK", nil, nil
	default:
		switch st.StatementType() {
		case query.BeginStatement, query.CommitStatement, query.RollbackStatement:
			return "OK", nil, nil
		}
	}
	return "", nil, errSvc
}

func (t *svcStore) mapRows(rows []map[string]any, f func(map[string]any)) []map[string]any {
	var out []map[string]any
	for _, r := range rows {
		c := map[string]any{}
		for k, v := range r {
			c[k] = v
		}
		f(c)
		out = append(out, c)
	}
	return out
}

func svcRender(rs resultset.ResultSet, sorted bool) string {
	var out []string
	for rs.Next() {
		r, err := rs.Row()
		if err != nil {
			return "ERR"
		}
		var vs []string
		for _, v := range r.Values() {
			vs = append(vs, svcShow(v))
		}
		out = append(out, strings.Join(vs, ","))
		simrt.Y(48)
	}
	if sorted {
		sort.Strings(out)
	}
	return "OK " + strings.Join(out, ";")
}

// handle executes one request of a session.
func (s *service) handle(conn sqlnet.Conn, p sql.Parser, sess, id int, text string) string {
	record := func(ans string) *svcExec {
		s.log = append(s.log, svcExec{id: id, sess: sess, user: conn.User(), ans: ans, at: simrt.Seq()})
		return &s.log[len(s.log)-1]
	}
	var sts []query.Statement
	var err error
	f := strings.SplitN(text, " ", 5)
	switch f[0] {
	case "\\who":
		ans := "OK " + conn.User() + "@" + conn.Database() + strings.Join(conn.Schemas(), ",")
		s.mu.Lock()
		record(ans)
		s.mu.Unlock()
		return ans
	case "\\login", "\\path", "\\sessions", "\\upgrade":
		switch f[0] {
		case "\\login":
			u := conn.User()
			conn.SetUser(u[:strings.IndexByte(u, '.')+1] + f[1])
		case "\\path":
			conn.SetSchemas(f[1:]...)
		case "\\sessions":
			own, seen := 0, map[uint64]bool{}
			for _, c := range s.mgr.Conns() {
				if c == conn {
					own++
				}
				if seen[c.ID()] {
					s.e.Failf("registry", "the listing shows session %d twice", c.ID())
				}
				seen[c.ID()] = true
			}
			if own != 1 && !s.stop && !s.isGone(conn) {
				s.e.Failf("registry", "the listing shows the listing session %d times", own)
			}
		}
		s.mu.Lock()
		record("OK")
		s.mu.Unlock()
		return "OK"
	case "\\kill":
		n, _ := strconv.ParseUint(f[1], 10, 64)
		if c, ok := s.mgr.LookupConnByUID(n + 1); ok && c != conn {
			simrt.Count("probe:killed")
			if s.e.P.cfg("reuse") == 0 {
				_ = c.Close()
			} else if c.Close() == nil {
				// its number is free at once
				if s.ngone < len(s.gone) {
					s.gone[s.ngone] = c
					s.ngone++
				}
				if err := s.mgr.RemoveConn(c); err != nil {
					s.e.Failf("unregister", "removing a killed session: %v", err)
				}
			}
		}
		s.mu.Lock()
		record("OK")
		s.mu.Unlock()
		return "OK"
	case "\\exec":
		n, _ := strconv.Atoi(f[3])
		k, _ := strconv.Atoi(f[1])
		b := stmt.NewBindStatement(stmt.WithBindStatementQuery(fmt.Sprintf(svcPrepared[k], f[2])), stmt.WithBindStatementParams(stmt.BindParams{stmt.NewBindParam(n), stmt.NewBindParam(f[4])}))
		sts, err = b.Statements()
	default:
		shared := s.share && strings.HasPrefix(text, "SELECT")
		if shared {
			s.cmu.Lock()
			sts = s.cache[text]
			s.cmu.Unlock()
		}
		if sts == nil {
			sts, err = p.ParseString(text)
			if shared && err == nil {
				s.cmu.Lock()
				s.cache[text] = sts
				s.cmu.Unlock()
			}
		}
	}
	simrt.Y(49)
	var ans string
	var finish func() string
	d := s.database(conn.Database())
	d.mu.Lock()
	if err == nil && len(sts) == 1 {
		ans, finish, err = s.exec(conn, sts[0])
	} else {
		err = errSvc
	}
	if err != nil {
		ans, finish = "ERR", nil
	}
	s.mu.Lock()
	record(ans)
	slot := len(s.log) - 1
	s.mu.Unlock()
	d.mu.Unlock()
	if finish != nil {
		ans = finish()
		s.log[slot].ans = ans
	}
	return ans
}

// serve is one session's server side.
func (s *service) serve(t *tconn, user string) {
	e := s.e
	s.live++
	sess := s.nsess
	s.nsess++
	w := &wire{tconn: t}
	conn := sqlnet.NewConnWith(w, sqlnet.WithConnID(uint64(sess+1)), sqlnet.WithConnDatabase("d0"), sqlnet.WithConnUser(user))
	if e.P.cfg("reuse") == 1 {
		// session numbers are given again: the lowest one that is free
		for id := uint64(1); ; id++ {
			if _, ok := s.mgr.LookupConnByUID(id); ok {
				continue
			}
			simrt.Y(50)
			conn = sqlnet.NewConnWith(w, sqlnet.WithConnID(id), sqlnet.WithConnDatabase("d0"), sqlnet.WithConnUser(user))
			if err := s.mgr.AddConn(conn); err == nil {
				break
			}
		}
	}
	if e.P.cfg("reuse") == 1 {
		simrt.Count("probe:number-reused")
	} else if err := s.mgr.AddConn(conn); err != nil {
		e.Failf("register", "registering session %d: %v", sess, err)
	}
	p := sql.NewParser()
	var buf []byte
	tmp := make([]byte, 64)
loop:
	for {
		n, err := conn.Read(tmp)
		buf = append(buf, tmp[:max(n, 0)]...)
		for {
			i := bytes.IndexByte(buf, '\n')
			if i < 0 {
				break
			}
			line := string(buf[:i])
			buf = buf[i+1:]
			id, text, _ := strings.Cut(line, " ")
			k, perr := strconv.Atoi(id)
			if perr != nil {
				e.Failf("garbled", "session %d received %q", sess, line)
				break loop
			}
			if c, ok := s.mgr.LookupConnByUUID(conn.UUID()); (!ok || c != conn) && !s.stop && !s.isGone(conn) {
				e.Failf("registry", "session %d is being served but not registered", sess)
			}
			if text == "\\upgrade" {
				// the session goes on over a new connection object
				w.up = true
				c := sqlnet.NewConnWith(w, sqlnet.WithConnID(conn.ID()), sqlnet.WithConnDatabase(conn.Database()), sqlnet.WithConnSchemas(conn.Schemas()...), sqlnet.WithConnUser(conn.User()))
				if err := s.mgr.UpdateConn(conn, c); err != nil && (s.stop || s.isGone(conn)) {
					break loop
				} else if err != nil {
					e.Failf("register", "replacing the connection of session %d: %v", sess, err)
				}
				if x, ok := s.mgr.LookupConnByUID(c.ID()); (!ok || x != c) && !s.stop && !s.isGone(c) {
					e.Failf("register", "session %d is not reachable after its connection was replaced", sess)
				}
				simrt.Count("probe:upgraded")
				conn = c
			}
			ans := []byte(id + " " + s.handle(conn, p, sess, k, text) + "\n")
			for len(ans) > 0 {
				n, err := conn.Write(ans)
				ans = ans[max(n, 0):]
				if err != nil && !errors.Is(err, os.ErrDeadlineExceeded) {
					break loop
				}
			}
		}
		if err != nil && !errors.Is(err, os.ErrDeadlineExceeded) {
			break
		}
	}
	for try := 0; ; try++ {
		if err := conn.Close(); err == nil || t.closed {
			break
		}
		if try > 50 {
			e.S.StopFaults()
		}
	}
	if err := s.mgr.RemoveConn(conn); err != nil {
		e.Failf("unregister", "removing session %d: %v", sess, err)
	}
	if _, ok := s.mgr.LookupConnByUUID(conn.UUID()); ok {
		e.Failf("registry", "session %d is gone but still registered", sess)
	}
	if c, ok := s.mgr.LookupConnByUID(conn.ID()); ok && c == conn {
		e.Failf("registry", "session %d is gone but still registered under its ID", sess)
	}
	s.live--
}

// svcClient is one client's side.
type svcClient struct {
	s    *service
	c    int
	t    *tconn
	buf  []byte
	next int
	acks []svcAck
}

type svcAck struct {
	id        int
	op        Op
	call, ret int64
	ans       string
	acked     bool
}

func (k *svcClient) connect() {
	if k.t != nil {
		return
	}
	a, b := newDuplex(k.c*100+k.next, k.s.e.P.cfg("max"))
	b.noFaults = true
	k.t, k.buf = b, nil
	simrt.Go(func() { k.s.serve(a, fmt.Sprintf("u%d.", k.c)) })
}

func (k *svcClient) hangup() {
	if k.t != nil {
		k.t.Close()
		k.t = nil
	}
}

// request sends an operation and, unless told otherwise, waits for its answer.
func (k *svcClient) request(o Op, mode int) bool {
	k.connect()
	a := svcAck{id: k.c*1000 + k.next, op: o, call: simrt.Seq()}
	k.next++
	line := []byte(fmt.Sprintf("%d %s\n", a.id, svcSQL(o)))
	defer func() { k.acks = append(k.acks, a) }()
	if mode == 1 { // half a request
		line = line[:len(line)/2]
	}
	if _, err := k.t.Write(line); err != nil {
		k.hangup()
		return false
	}
	if mode > 0 {
		k.hangup()
		return false
	}
	tmp := make([]byte, 40)
	for {
		if i := bytes.IndexByte(k.buf, '\n'); i >= 0 {
			l := string(k.buf[:i])
			k.buf = k.buf[i+1:]
			a.ret, a.acked = simrt.Seq(), true
			id, ans, _ := strings.Cut(l, " ")
			a.ans = ans
			if id != strconv.Itoa(a.id) {
				k.s.e.Failf("answer", "client %d: %q answers request %d", k.c, l, a.id)
			}
			return true
		}
		n, err := k.t.Read(tmp)
		k.buf = append(k.buf, tmp[:n]...)
		if err != nil {
			k.hangup()
			return false
		}
	}
}

func init() {
	register(&Prop{
		ID: "C14", Secs: 40, Quick: 20000, Thorough: 500000, MaxSteps: 3000000,
		Rule: "2-4 clients talk to a multi-session service assembled from the library (a long-lived parser per session, connections over a faulty transport, the registry, schemas, bind statements, result sets, aggregates, catalog listing) through fragmented, slow, failing and reset streams; they create, alter, fill, query, order, truncate and drop tables in two databases, change user and search path, replace their connection object, list the sessions, share the parsed form of equal queries, stop the whole service, send malformed and half statements, hang up, reconnect and kill each other's sessions; the service's execution order is replayed by a sequential reference and every answer compared; at the end faults stop and every client must still be served",
		Real: "all packages under sql/", Stub: "transport (in-memory, faulty), row store, service loop",
		Gen: func(r *simrt.Rng) *Plan {
			pl := &Plan{Cfg: map[string]int{"stop": r.Intn(2), "reuse": r.Intn(2), "share": r.Intn(2), "max": []int{0, 0, 3, 16}[r.Intn(4)]}, Rate: []int{0, 0, 4, 20, 60}[r.Intn(5)], MapSeed: r.U64()}
			kinds := []string{"create", "create", "insert", "insert", "insert", "insert", "update", "update", "delete", "select", "select", "select", "aggr", "aggr", "aggr", "addcol", "dropcol", "addidx", "dropidx", "catalog", "use", "bad", "bad", "who", "prep", "prep", "drop", "kill", "trunc", "tx", "login", "path", "who", "upgrade", "sessions"}
			nc, long := 2+r.Intn(3), 6
			if r.Bool(40) {
				nc, long = 2, 60
			}
			for c := 0; c < nc; c++ {
				var ops []Op
				if c == 0 || r.Bool(300) {
					ops = append(ops, Op{K: "create", I: []int{0, 0, 0, 0}})
				}
				if r.Bool(200) {
					ops = append(ops, Op{K: "use", I: []int{1}}, Op{K: "create", I: []int{0, 0, 0, 0}})
				}
				for j := 0; j <= 1+r.Intn(long); j++ {
					tb := 0
					if r.Bool(200) {
						tb = r.Intn(6)
					}
					mode := 0
					if r.Bool(70) {
						mode = 1 + r.Intn(2)
					}
					ops = append(ops, Op{K: kinds[r.Intn(len(kinds))], I: []int{tb, r.Intn(8), r.Intn(7), r.Intn(180), mode, r.Intn(12)}})
				}
				pl.Clients = append(pl.Clients, ops)
			}
			pl.Est = int64(nc * 1500)
			return pl
		},
		Build: func(e *Env) func() {
			s := &service{e: e, mgr: sqlnet.NewConnManager(), share: e.P.cfg("share") == 1, cache: map[string][]query.Statement{}}
			cls := make([]*svcClient, len(e.P.Clients))
			arrived, served := 0, 0
			var gate, gate2 byte
			for c := range e.P.Clients {
				k := &svcClient{s: s, c: c}
				cls[c] = k
				e.S.Spawn(func() {
					for _, o := range e.P.Clients[c] {
						ok := k.request(o, o.i(4))
						e.Logf(c, "%s %v", o.K, ok)
					}
					arrived++
					if arrived == len(cls) {
						e.S.StopFaults()
						simrt.Wake(unsafe.Pointer(&gate))
					}
					for arrived < len(cls) {
						simrt.Block(unsafe.Pointer(&gate))
					}
					ok := false
					for try := 0; try < 3 && !ok; try++ {
						ok = k.request(Op{K: "select", I: []int{0, 0, 0, 2}}, 0)
					}
					if !ok {
						e.Failf("not-served", "client %d is not served although faults have stopped", c)
					}
					if e.P.cfg("stop") == 1 {
						// the service is shut down while its clients are connected
						served++
						for served < len(cls) {
							simrt.Block(unsafe.Pointer(&gate2))
						}
						simrt.Wake(unsafe.Pointer(&gate2))
						if !s.stop {
							s.stop = true
							if err := s.mgr.Stop(); err != nil {
								e.Failf("stop", "stopping the service: %v", err)
							}
							if n := len(s.mgr.Conns()); n != 0 {
								e.Failf("stop", "%d connections are registered after the service was stopped", n)
							}
						}
					}
					k.hangup()
				})
			}
			return func() {
				if n := len(s.mgr.Conns()); n != 0 {
					e.Failf("registry", "%d connections are registered after all sessions ended", n)
				}
				ops := map[int]*svcAck{}
				for _, k := range cls {
					for i := range k.acks {
						ops[k.acks[i].id] = &k.acks[i]
					}
				}
				m := &refService{tables: map[string]*refTable{}, db: map[int]string{}, user: map[int]string{}, path: map[int][]string{}}
				seen := map[int]*svcExec{}
				for i := range s.log {
					x := &s.log[i]
					a := ops[x.id]
					if a == nil {
						e.Failf("invented", "the service executed request %d, which nobody sent", x.id)
						return
					}
					if seen[x.id] != nil {
						e.Failf("twice", "request %d (%s) was executed twice", x.id, svcSQL(a.op))
						return
					}
					seen[x.id] = x
					want := m.apply(x.sess, x.user, a.op)
					if !strings.HasPrefix(x.user, fmt.Sprintf("u%d.", x.id/1000)) {
						e.Failf("session", "request %d of client %d was served in the session of %s", x.id, x.id/1000, x.user)
						return
					}
					if x.ans != want {
						var hist []string
						for _, y := range s.log[:i] {
							hist = append(hist, fmt.Sprintf("[%d] %s -> %s", y.sess, svcSQL(ops[y.id].op), y.ans))
						}
						e.Failf("answer", "session %d: %q is answered %q; a sequential service answers %q after\n%s", x.sess, svcSQL(a.op), x.ans, want, strings.Join(hist, "\n"))
						return
					}
				}
				for _, k := range cls {
					for _, a := range k.acks {
						if !a.acked {
							continue
						}
						x := seen[a.id]
						if x == nil {
							e.Failf("answer", "request %d (%s) was answered %q without having been executed", a.id, svcSQL(a.op), a.ans)
						} else if x.ans != a.ans || x.at < a.call || x.at > a.ret {
							e.Failf("answer", "request %d (%s) was answered %q, the service's answer is %q", a.id, svcSQL(a.op), a.ans, x.ans)
						}
					}
				}
			}
		},
	})
}
