BUGS=[]
def bug(id,prop,edits,pkg,demo,needs,breaks,race=False):
    BUGS.append(dict(id=id,prop=prop,edits=edits,pkg=pkg,demo=demo,needs=needs,breaks=breaks,race=race))
bug('b30-now-never-goes-back','C12',[('sql/fn/time_func.go','''		NowFunctionName,
		func(args []string) (any, error) {
			return time.Now(), nil
''','''		NowFunctionName,
		func(args []string) (any, error) {
			now := time.Now()
			nowMutex.Lock()
			defer nowMutex.Unlock()
			if now.Sub(lastNow) < time.Millisecond {
				return lastNow, nil
			}
			lastNow = now
			return now, nil
'''),('sql/fn/time_func.go','''	"time"
)
''','''	"sync"
	"time"
)

var (
	nowMutex sync.Mutex
	lastNow  time.Time
)
''')],'sql/fn','''package fn

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	for n := 0; n < 100; n++ {
		from := time.Now()
		v, err := NewNow().Execute(nil)
		if err != nil {
			t.Fatal(err)
		}
		if now := v.(time.Time); now.Before(from) || time.Now().Before(now) {
			t.Fatal(from, now)
		}
	}
}
''','two evaluations within a millisecond, or a clock that steps back','NOW returns a time before its evaluation began')
bug('b31-rand-zero-repeats','C13',[('sql/fn/math_func.go','''			n := binary.BigEndian.Uint64(b[:])
''','''			n := nonZeroRand(binary.BigEndian.Uint64(b[:]))
'''),('sql/fn/math_func.go','''	"math"
)
''','''	"math"
	"sync/atomic"
)

var lastRand atomic.Uint64

// nonZeroRand avoids zero, which cannot be used as a divisor.
func nonZeroRand(n uint64) uint64 {
	if n>>11 == 0 {
		n = lastRand.Load()
	}
	lastRand.Store(n)
	return n
}
''')],'sql/fn','''package fn

import (
	"bytes"
	"crypto/rand"
	"io"
	"testing"
)

func TestDemo(t *testing.T) {
	saved := rand.Reader
	defer func() { rand.Reader = saved }()
	f := NewRand()
	rand.Reader = io.MultiReader(bytes.NewReader([]byte{64, 0, 0, 0, 0, 0, 0, 0}), bytes.NewReader(make([]byte, 64)))
	if _, err := f.Execute(nil); err != nil {
		t.Fatal(err)
	}
	v, err := f.Execute(nil)
	if err != nil || v.(float64) != 0 {
		t.Fatal(v, err)
	}
}
''','entropy whose upper 53 bits are zero','the random function replays the value of an earlier evaluation')
bug('b32-alter-drops-index-of-column','C15',[('sql/query/schema.go','''		err := schema.DropColumn(col.Name())
		if err != nil {
			return err
		}
''','''		err := schema.DropColumn(col.Name())
		if err != nil {
			return err
		}
		// Drops the index that has no column any more
		for _, idx := range schema.indexes {
			if len(idx.Columns()) == 1 && idx.Columns()[0].IsName(col.Name()) {
				if err := schema.DropIndex(idx.Name()); err != nil {
					return err
				}
			}
		}
''')],'sql/query','''package query

import "testing"

func TestDemo(t *testing.T) {
	s := NewSchemaWith("t", WithSchemaColumns(NewColumnsWith(NewColumnWithName("a"), NewColumnWithName("b"))))
	if err := s.AddIndex(NewIndexWith("i", SecondaryIndex, NewColumnsWith(NewColumnWithName("a")))); err != nil {
		t.Fatal(err)
	}
	if err := s.Alter(NewAlterTableWith("t", WithAlterTableDropColumn(NewColumnWithName("a")))); err != nil {
		t.Fatal(err)
	}
	if _, err := s.LookupIndex("i"); err != nil || len(s.Indexes()) != 1 {
		t.Fatal(err)
	}
}
''','dropping by a statement a column that is the only one of an index','an index disappears that was not dropped')
bug('b33-shared-parser-of-binding','C16',[('sql/stmt/bind_impl.go','''	stmts, err := sql.NewParser().ParseString(q)
''','''	stmts, err := stmt.parser.ParseString(q)
'''),('sql/stmt/bind_impl.go','''	params BindParams
}
''','''	params BindParams
	parser sql.Parser
}
'''),('sql/stmt/bind_impl.go','''		params: []BindParam{},
''','''		params: []BindParam{},
		parser: sql.NewParser(),
''')],'sql/stmt','''package stmt

import (
	"fmt"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	s := NewBindStatement(WithBindStatementQuery("SELECT * FROM t WHERE a = ?"), WithBindStatementParams(BindParams{NewBindParam("x")}))
	var wg sync.WaitGroup
	errs := make(chan error, 8)
	for c := 0; c < 8; c++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 50; n++ {
				l, err := s.Statements()
				if err != nil || len(l) != 1 {
					errs <- fmt.Errorf("%v %w", l, err)
					return
				}
			}
		}()
	}
	wg.Wait()
	close(errs)
	for err := range errs {
		t.Fatal(err)
	}
}
''','two executions of one prepared statement at the same time','executions of a prepared statement share one parser',race=True)
bug('b34-catalog-skips-blank-rows','C17',[('sql/system/schema_columns_resutset_from.go','''		name, err := row.ValueBy(SchemaColumnsColumnName)
		if err != nil {
			return nil, err
		}
''','''		name, err := row.ValueBy(SchemaColumnsColumnName)
		if err != nil {
			if len(columns) == 0 {
				return nil, err
			}
			break
		}
''')],'sql/system','''package system

import (
	"testing"

	"github.com/cybergarage/go-sqlparser/sql/query/response/resultset"
)

func TestDemo(t *testing.T) {
	schema, err := NewSchemaColumnsResultSetSchema()
	if err != nil {
		t.Fatal(err)
	}
	obj := map[string]any{SchemaColumnsCatalog: "def", SchemaColumnsSchema: "db", SchemaColumnsTableName: "t", SchemaColumnsColumnName: "a", SchemaColumnsDataType: "INT"}
	bad := map[string]any{SchemaColumnsCatalog: "def", SchemaColumnsSchema: "db", SchemaColumnsTableName: "t", SchemaColumnsDataType: "INT"}
	rs := &demoSource{rows: []map[string]any{obj, bad}, schema: schema}
	if l, err := NewSchemaColumnsResultSetFromResultSet(rs); err == nil {
		t.Fatal("a malformed row was accepted", l.Columns())
	}
}

type demoSource struct {
	rows   []map[string]any
	pos    int
	schema resultset.Schema
}

func (s *demoSource) Next() bool { s.pos++; return s.pos <= len(s.rows) }
func (s *demoSource) Row() (resultset.Row, error) {
	return resultset.NewRow(resultset.WithRowObject(s.rows[s.pos-1])), nil
}
func (s *demoSource) Schema() resultset.Schema { return s.schema }
func (s *demoSource) RowsAffected() uint       { return 0 }
func (s *demoSource) Close() error             { return nil }
''','a malformed row after the first one','a truncated listing is returned without an error')
bug('b35-parser-gives-up-after-errors','C07',[('sql/parser/sqlite/parser_antlr.go','''	if !parser.errorListener.IsSuccess() {
''','''	if !parser.isSuccess() {
'''),('sql/parser/sqlite/parser_antlr.go','''type Parser struct {
''','''type Parser struct {
	failures int
'''),('sql/parser/sqlite/parser_antlr.go','''// ParseString parses''','''func (parser *Parser) isSuccess() bool {
	if !parser.errorListener.IsSuccess() {
		parser.failures++
	}
	// A client that sends garbage only is not served any more
	return parser.failures <= 32 && parser.errorListener.IsSuccess()
}

// ParseString parses''')],'sql','''package sql

import "testing"

func TestDemo(t *testing.T) {
	p := NewParser()
	for n := 0; n < 40; n++ {
		_, _ = p.ParseString("SELEC")
	}
	if _, err := p.ParseString("SELECT a FROM t"); err != nil {
		t.Fatal(err)
	}
}
''','more than 32 malformed inputs on one parser','a valid statement is rejected because of earlier inputs')
bug('b36-row-computed-visible','C11',[('sql/query/response/resultset/row_helper.go','''				rowObj[name] = value
				continue
''','''				rowObj[name] = value
				if _, ok := objMap[name]; !ok {
					objMap[name] = value
				}
				continue
''')],'sql/query/response/resultset','''package resultset

import (
	"testing"

	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
)

func TestDemo(t *testing.T) {
	f := fn.NewFunction(fn.WithFunctionName("ABS"), fn.WithFunctionArguments(fn.NewArgumentWith("a")))
	tbl := query.NewSchemaWith("t", query.WithSchemaColumns(query.NewColumnsWith(query.NewColumnWithName("a"))))
	schema, err := NewSchemaFrom(WithSchemaDatabaseName("db"), WithSchemaTableSchema(tbl), WithSchemaSelectors(query.Selectors{f}))
	if err != nil {
		t.Fatal(err)
	}
	obj := map[string]any{"a": -1}
	if _, err := NewRowFromObject(schema, obj); err != nil {
		t.Fatal(err)
	}
	if len(obj) != 1 {
		t.Fatal(obj)
	}
}
''','a computed column read through a cursor over rows that others read too','reading a row changes the stored row that other cursors share')
bug('b37-order-of-many-groups','C10',[('sql/fn/aggr_impl.go','''		for _, groupSetKey := range groupSetKeys {
''','''		for _, groupSetKey := range uniqueGroups(groupSetKeys) {
'''),('sql/fn/aggr_impl.go','''// AggregateMap aggregates''','''// uniqueGroups returns the groups without duplicates.
func uniqueGroups(keys []GroupBySet) []GroupBySet {
	if len(keys) < 12 {
		return keys
	}
	unique := make(map[GroupBySet]bool, len(keys))
	for _, key := range keys {
		unique[key] = true
	}
	groups := make([]GroupBySet, 0, len(unique))
	for key := range unique {
		groups = append(groups, key)
	}
	return groups
}

// AggregateMap aggregates''')],'sql/fn','''package fn

import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	names := []string{"SUM", "COUNT"}
	set, err := NewAggregatorSetForNames(names, WithAggregatorArguments([]string{"a"}), WithAggregatorGroupBys("g"))
	if err != nil {
		t.Fatal(err)
	}
	if err := set.Reset(); err != nil {
		t.Fatal(err)
	}
	for n := 0; n < 40; n++ {
		for k := 0; k <= n; k++ {
			if err := set.Aggregate([]any{fmt.Sprint("g", n), 1}); err != nil {
				t.Fatal(err)
			}
		}
	}
	rs, err := set.Finalize()
	if err != nil {
		t.Fatal(err)
	}
	for rs.Next() {
		row, err := rs.Row()
		if err != nil || row[1].(float64) != row[2].(float64) {
			t.Fatal(row, err)
		}
	}
}
''','twelve or more groups and more than one aggregate','groups are paired with the values of other groups')
bug('b38-executor-keeps-argument-names','C08',[('sql/fn/args.go','''	names := make([]string, len(args))
	for n, arg := range args {
		names[n] = arg.Name()
	}
	return names
''','''	if len(args) == 0 {
		return []string{}
	}
	namesMutex.Lock()
	defer namesMutex.Unlock()
	key := args.String()
	if names, ok := namesCache[key]; ok {
		return names
	}
	names := make([]string, len(args))
	for n, arg := range args {
		names[n] = arg.Name()
	}
	namesCache[key] = names
	return names
'''),('sql/fn/args.go','''import (
''','''import (
	"sync"

'''),('sql/fn/args.go','''// Arguments represents''','''var (
	namesMutex sync.Mutex
	namesCache = map[string][]string{}
)

// Arguments represents''')],'sql/fn','''package fn

import "testing"

func TestDemo(t *testing.T) {
	a := NewArgumentsWith(NewArgumentWith("a"), NewArgumentWith("b"))
	b := NewArgumentsWith(NewArgumentWith("a"), NewArgumentWith("b"))
	a.Names()[0] = "changed"
	if n := b.Names(); n[0] != "a" {
		t.Fatal(n)
	}
}
''','a caller that changes the argument names it was given','one statement reports argument names changed through another')
BUGS.pop()
bug('b39-join-second-listing','C14',[],'sql','','','')
BUGS.pop()
