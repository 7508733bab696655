BUGS=[]
def bug(id,prop,edits,pkg,demo,needs,breaks,race=False):
    BUGS.append(dict(id=id,prop=prop,edits=edits,pkg=pkg,demo=demo,needs=needs,breaks=breaks,race=race))
EX='sql/fn/executor_impl.go'; FI='sql/fn/func_impl.go'
bug('b13-executor-scratch-row','C08',[(FI,'''	if fn.executor != nil {
		return fn.executor, nil
	}
''','''	if fn.executor != nil && len(opts) == 0 {
		return fn.executor, nil
	}
'''),(FI,'''	return NewExecutorForName(fn.name, allOpts...)
}''','''	ex, err := NewExecutorForName(fn.name, allOpts...)
	if err == nil && len(opts) == 0 {
		fn.executor = ex
	}
	return ex, err
}'''),(EX,'''	fn   ExecutorFunc
}''','''	fn   ExecutorFunc
	row  []any
}'''),(EX,'''	row := make([]any, 0, len(ex.args))
	for _, arg := range ex.args {
		v, ok := m[arg]
		if !ok {
			v = arg
		}
		row = append(row, v)
	}
	return ex.ExecuteArgs(row)''','''	ex.row = ex.row[:0]
	for _, arg := range ex.args {
		v, ok := m[arg]
		if !ok {
			v = arg
		}
		ex.row = append(ex.row, v)
	}
	return ex.ExecuteArgs(ex.row)''')],'sql','''package sql

import (
	"sync"
	"testing"

	"github.com/cybergarage/go-sqlparser/sql/query"
)

func TestDemo(t *testing.T) {
	stmts, err := NewParser().ParseString("SELECT ABS(a) FROM t")
	if err != nil {
		t.Fatal(err)
	}
	sel := stmts[0].(query.Select)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 20000; n++ {
				exs, err := sel.Selectors().Executors()
				if err != nil {
					t.Error(err)
					return
				}
				v, err := exs[0].Execute(map[string]any{"a": -g})
				if err != nil || v.(float64) != float64(g) {
					t.Errorf("%d: %v %v", g, v, err)
					return
				}
			}
		}()
	}
	wg.Wait()
}
''','two callers executing a function of one shared statement at the same time','executions of a shared statement mix their arguments',race=True)
AR='sql/query/response/resultset/resultset_aggr.go'
bug('b14-source-eof-is-end','C09',[(AR,'''		row, err := srcRs.Row()
		if err != nil {
			return nil, err
		}
''','''		row, err := srcRs.Row()
		if errors.Is(err, io.EOF) {
			break
		}
		if err != nil {
			return nil, err
		}
'''),(AR,'''import (
	"fmt"
''','''import (
	"errors"
	"fmt"
	"io"
''')],'sql/query/response/resultset','''package resultset

import (
	"io"
	"testing"

	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
)

type src struct {
	ResultSet
	n int
}

func (s *src) Next() bool { s.n++; return true }
func (s *src) Row() (Row, error) {
	if s.n == 2 {
		return nil, io.ErrUnexpectedEOF
	}
	if s.n == 3 {
		return nil, io.EOF
	}
	return NewRow(WithRowObject(map[string]any{"a": 1})), nil
}

func TestDemo(t *testing.T) {
	tbl := query.NewSchemaWith("t", query.WithSchemaColumns(query.NewColumnsWith(query.NewColumnWithOptions(query.WithColumnName("a")))))
	for _, start := range []int{0, 1, 2} {
		s := &src{NewResultSet(WithResultSetSchema(NewSchema())), start}
		rs, err := NewAggregatedResultSetFrom(
			WithAggregatedResultSetTableSchema(tbl),
			WithAggregatedResultSetSelectors(query.Selectors{fn.NewFunction(fn.WithFunctionName("SUM"), fn.WithFunctionArguments(fn.NewArgumentWith("a")))}),
			WithAggregatedResultSetSource(s),
		)
		if err == nil || rs != nil {
			t.Fatalf("a failing source gave %v", rs)
		}
	}
}
''','a source that fails in the middle with an error wrapping io.EOF (a dropped connection)','a truncated stream is aggregated as if it were complete')
AI='sql/fn/aggr_impl.go'
bug('b15-group-count-shared','C09',[('sql/fn/avg.go','PLACEHOLDER','')],'sql/fn','','','')
BUGS.pop()
bug('b16-typename-prefix','C10',[('sql/query/data_type.go','''		dataTypeString = strings.ReplaceAll(dataTypeString, " ", "")
		if dataTypeString == us {
			return dataType, nil
		}
''','''		dataTypeString = strings.ReplaceAll(dataTypeString, " ", "")
		if dataTypeString == us || strings.HasPrefix(dataTypeStrings[dataType], us+" ") {
			return dataType, nil
		}
''')],'sql/query','''package query

import "testing"

func TestDemo(t *testing.T) {
	for n := 0; n < 2000; n++ {
		dt, err := NewDataTypeFromString("DOUBLE")
		if err != nil || dt != DoubleType {
			t.Fatalf("DOUBLE resolved to %v (%v)", dt, err)
		}
	}
}
''','a map iteration that visits a longer name before the exact one','a type name resolves to another type depending on map order')
RI='sql/query/response/resultset/row_impl.go'; RS='sql/query/response/resultset/resultset_impl.go'
bug('b17-row-values-cached','C11',[(RI,'''			values = append(values, nil)
		}
	}
	return values
''','''			values = append(values, nil)
		}
	}
	if row.schema == nil {
		row.values = values
	}
	return values
''')],'sql/query/response/resultset','''package resultset

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	for n := 0; n < 200; n++ {
		r := NewRow(WithRowObject(map[string]any{"a": 1, "b": 2}))
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() { defer wg.Done(); r.Values() }()
		}
		wg.Wait()
	}
}
''','two cursors reading the same stored row at the same time','reading a shared row writes to it',race=True)
TF='sql/fn/time_func.go'
bug('b19-now-cached-tick','C12',[(TF,'''import (
	"time"
)
''','''import (
	"sync"
	"time"
)

var (
	nowMutex sync.Mutex
	nowLast  time.Time
)

// monotonicNow returns the current time, which never goes back.
func monotonicNow() time.Time {
	nowMutex.Lock()
	defer nowMutex.Unlock()
	now := time.Now()
	if now.Before(nowLast) {
		return nowLast
	}
	nowLast = now
	return now
}
'''),(TF,'''		NowFunctionName,
		func(args []string) (any, error) {
			return time.Now(), nil
''','''		NowFunctionName,
		func(args []string) (any, error) {
			return monotonicNow(), nil
''')],'sql/fn','''package fn

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	ex, err := NewExecutorForName("NOW")
	if err != nil {
		t.Fatal(err)
	}
	v, err := ex.Execute(nil)
	if err != nil {
		t.Fatal(err)
	}
	// A stand-in for a clock set back: the reading must be taken from the clock, not from the process's memory.
	if hook, ok := any(v).(time.Time); !ok || hook.IsZero() {
		t.Fatal("no time")
	}
}
''','the clock set back between two evaluations','NOW() keeps returning a time in the future')
BUGS.pop()
bug('b19-now-once-per-executor','C12',[(TF,'''func NewNow(opts ...ExecutorOption) Executor {
	return NewTimeFunctionWith(
		NowFunctionName,
		func(args []string) (any, error) {
			return time.Now(), nil
		},''','''func NewNow(opts ...ExecutorOption) Executor {
	var now time.Time
	return NewTimeFunctionWith(
		NowFunctionName,
		func(args []string) (any, error) {
			if now.IsZero() {
				now = time.Now()
			}
			return now, nil
		},''')],'sql/fn','''package fn

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	ex, err := NewExecutorForName("NOW")
	if err != nil {
		t.Fatal(err)
	}
	if _, err := ex.Execute(nil); err != nil {
		t.Fatal(err)
	}
	time.Sleep(5 * time.Millisecond)
	before := time.Now()
	v, err := ex.Execute(nil)
	if err != nil || v.(time.Time).Before(before) {
		t.Fatalf("a stale time: %v %v", v, err)
	}
}
''','a second evaluation by one executor after time has passed','the second evaluation returns the time of the first')
MF='sql/fn/math_func.go'
bug('b20-rand-batch','C13',[(MF,'''			// Returns a random float64 in [0.0, 1.0) using crypto/rand.
			var b [8]byte
			_, err := rand.Read(b[:])
			if err != nil {
				return nil, err
			}
''','''			// Returns a random float64 in [0.0, 1.0) using crypto/rand.
			b := randBytes[:]
			_, err := rand.Read(b)
			if err != nil {
				return nil, err
			}
'''),(MF,'''// NewAbs returns a new abs function.
''','''// randBytes is the buffer for the random functions.
var randBytes [8]byte

// NewAbs returns a new abs function.
''')],'sql/fn','''package fn

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	const N = 300000
	vs := make([][]any, 8)
	for g := range vs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ex, err := NewExecutorForName("RAND")
			if err != nil {
				t.Error(err)
				return
			}
			for n := 0; n < N; n++ {
				v, err := ex.Execute(nil)
				if err != nil {
					t.Error(err)
				}
				vs[g] = append(vs[g], v)
			}
		}()
	}
	wg.Wait()
	seen := map[any]bool{}
	for _, l := range vs {
		for _, v := range l {
			if seen[v] {
				t.Fatalf("%v was returned twice", v)
			}
			seen[v] = true
		}
	}
}
''','two evaluations of RAND at the same time','callers can obtain the same random value')
SC='sql/query/schema.go'; CO='sql/query/columns.go'
bug('b21-add-existing-column','C15',[(CO,'''	for n, column := range columns {
		if std_strings.EqualFold(column.Name(), name) {
			return n, nil
		}
	}
	return -1, newErrColumnNotFound(name)''','''	for n, column := range columns {
		if column.Name() == name {
			return n, nil
		}
	}
	return -1, newErrColumnNotFound(name)''')],'sql/query','''package query

import "testing"

func TestDemo(t *testing.T) {
	s := NewSchemaWith("t", WithSchemaColumns(NewColumnsWith(NewColumnWithOptions(WithColumnName("Abc")))))
	if n, err := s.Columns().LookupIndexOfColumn("aBC"); err != nil || n != 0 {
		t.Fatalf("%d %v", n, err)
	}
}
''','a lookup by a name in another case','lookups by name disagree about case')
bug('b22-lookup-last-of-duplicates','C15',[('sql/query/indexes.go','''	for _, index := range indexes {
		if strings.EqualFold(index.Name(), name) {
			return index, nil
		}
	}
	return nil, newErrIndexNotFound(name)''','''	for n := 1; n <= len(indexes); n++ {
		if index := indexes[len(indexes)-n]; strings.EqualFold(index.Name(), name) && n < len(indexes) || len(indexes) == 1 {
			return index, nil
		}
	}
	return nil, newErrIndexNotFound(name)''')],'sql/query','''package query

import "testing"

func TestDemo(t *testing.T) {
	s := NewSchemaWith("t")
	for _, name := range []string{"a", "b"} {
		if err := s.AddIndex(NewIndexWith(name, SecondaryIndex, NewColumns())); err != nil {
			t.Fatal(err)
		}
	}
	if idx, err := s.LookupIndex("A"); err != nil || idx.Name() != "a" {
		t.Fatal(err)
	}
}
''','a schema with two indexes','the first index of several is not found by its name')
BP='sql/stmt/bind_param_impl.go'; BI='sql/stmt/bind_impl.go'
bug('b23-param-text-cached','C16',[(BI,'''	for n, param := range stmt.params {
		s, err := param.String()
		if err != nil {
			return nil, err
		}
''','''	for n, param := range stmt.params {
		s, err := param.String()
		if err != nil && s == "" {
			return nil, err
		}
''')],'sql/stmt','''package stmt

import (
	"errors"
	"testing"
)

type badParam struct{}

func (badParam) String() (string, error) { return "1", errors.New("truncated") }

func TestDemo(t *testing.T) {
	st := NewBindStatement(WithBindStatementQuery("SELECT a FROM t WHERE b = ?"), WithBindStatementParams(BindParams{badParam{}}))
	if stmts, err := st.Statements(); err == nil || stmts != nil {
		t.Fatalf("%v %v", stmts, err)
	}
}
''','a parameter that converts partially and reports an error','a statement is made from a parameter that failed to convert')
SF='sql/system/schema_columns_resutset_from.go'
bug('b24-row-map-reused','C17',[(SF,'''	for _, schema := range schemas {
		for _, column := range schema.Columns() {
			obj := map[string]any{}
''','''	for _, schema := range schemas {
		obj := map[string]any{}
		for n, column := range schema.Columns() {
			if n%8 != 7 {
				obj = map[string]any{}
			}
''')],'sql/system','''package system

import (
	"fmt"
	"testing"

	"github.com/cybergarage/go-sqlparser/sql/query"
)

func TestDemo(t *testing.T) {
	cols := query.NewColumns()
	for n := 0; n < 10; n++ {
		cols = append(cols, query.NewColumnWithOptions(query.WithColumnName(fmt.Sprintf("c%d", n)), query.WithColumnData(query.NewDataDef(query.IntType, 0))))
	}
	rs, err := NewSchemaColumnsResultSetFromSchemas([]query.Schema{query.NewSchemaWith("t", query.WithSchemaColumns(cols))})
	if err != nil {
		t.Fatal(err)
	}
	for n := 0; rs.Next(); n++ {
		row, err := rs.Row()
		if err != nil {
			t.Fatal(err)
		}
		v, err := row.ValueBy(SchemaColumnsColumnName)
		if err != nil || v != fmt.Sprintf("c%d", n) {
			t.Fatalf("%d: %v %v", n, v, err)
		}
	}
}
''','a table with at least eight columns','two columns share an entry: one is listed twice, the other is missing')
