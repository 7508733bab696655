import runpy,os
S={}
for n in (1,2,3,4,5):
    for x in runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)),f's{n}.py'))['B']: S[x[0]]=x[2]
BUGS=[]
def bug(id,prop,cand,pkg,demo,needs,breaks,race=False):
    BUGS.append(dict(id=id,prop=prop,edits=S[cand],pkg=pkg,demo=demo,needs=needs,breaks=breaks,race=race))
bug('b40-result-columns-cached','C14','c14-schema-cache','sql/query/response/resultset','''package resultset

import (
	"testing"

	"github.com/cybergarage/go-sqlparser/sql/query"
)

func columns(t *testing.T, dt query.DataType) string {
	col := query.NewColumnWithOptions(query.WithColumnName("a"), query.WithColumnData(query.NewDataDef(dt, -1)))
	tbl := query.NewSchemaWith("demo", query.WithSchemaColumns(query.Columns{col}))
	sc, err := NewSchemaFrom(WithSchemaTableSchema(tbl), WithSchemaSelectors(query.Selectors{query.NewColumnWithName("a")}))
	if err != nil {
		t.Fatal(err)
	}
	return sc.Columns()[0].DataType().String()
}

func TestDemo(t *testing.T) {
	a, b := columns(t, query.IntegerType), columns(t, query.TextType)
	if a == b {
		t.Fatal(a, b)
	}
}
''','two tables of the same name, or a table that is dropped and created again, and the same select list','a query is answered with the columns of another table')
bug('b41-executor-by-name','C08','c14-exec-by-name','sql/fn','''package fn

import "testing"

func TestDemo(t *testing.T) {
	row := map[string]any{"a": -1.0, "b": -2.0}
	for _, c := range []struct {
		arg  string
		want float64
	}{{"a", 1}, {"b", 2}} {
		ex, err := NewFunction(WithFunctionName("ABS"), WithFunctionArguments(NewArgumentWith(c.arg))).Executor()
		if err != nil {
			t.Fatal(err)
		}
		v, err := ex.Execute(row)
		if err != nil || v != c.want {
			t.Fatal(c.arg, v, err)
		}
	}
}
''','two calls of the same function with different arguments in one process','a function is computed over the column of another statement')
bug('b42-columns-by-table-name','C15','c14-lookup-by-table','sql/query','''package query

import "testing"

func TestDemo(t *testing.T) {
	for _, dt := range []DataType{IntegerType, TextType} {
		col := NewColumnWithOptions(WithColumnName("a"), WithColumnData(NewDataDef(dt, -1)))
		sc := NewSchemaWith("demo", WithSchemaColumns(Columns{col}))
		c, err := sc.LookupColumn("a")
		if err != nil || c.DataType() != dt {
			t.Fatal(c, err)
		}
		if err := sc.DropColumn("a"); err != nil {
			t.Fatal(err)
		}
		if _, err := sc.LookupColumn("a"); err == nil {
			t.Fatal("found after it was dropped")
		}
	}
}
''','a lookup before and after an alteration, or two schemas of one name','lookups report columns which the schema does not have')
bug('b43-null-is-missing','C11','c11-valueby-fold','sql/query/response/resultset','''package resultset

import "testing"

func TestDemo(t *testing.T) {
	row := NewRow(WithRowObject(map[string]any{"a": nil}))
	if v, err := row.ValueBy("a"); v != nil || err != nil {
		t.Fatal(v, err)
	}
}
''','a row that holds a null','reading a null column fails as if the column did not exist')
bug('b44-time-of-argument','C12','c12-arg-time','sql/fn','''package fn

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	ex, err := NewFunction(WithFunctionName("NOW"), WithFunctionArguments(NewArgumentWith("a"))).Executor()
	if err != nil {
		t.Fatal(err)
	}
	start := time.Now()
	v, err := ex.Execute(map[string]any{"a": start.Add(-time.Hour)})
	if err != nil || v.(time.Time).Before(start) {
		t.Fatal(v, err)
	}
}
''','a current-time function whose argument is a time','the function returns the time of its argument')
bug('b45-wide-rows-unsorted','C10','c10-selectors-from-map','sql/query/response/resultset','''package resultset

import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	m := map[string]any{}
	for i := 0; i < 12; i++ {
		m[fmt.Sprintf("c%02d", i)] = i
	}
	for try := 0; try < 200; try++ {
		for i, v := range NewRow(WithRowObject(m)).Values() {
			if v != i {
				t.Fatal(i, v)
			}
		}
	}
}
''','a row object of eight or more fields without a schema','the order of its values follows the hash map')
bug('b46-user-change-clears-path','C04','c04-user-clears','sql/net','''package net

import "testing"

func TestDemo(t *testing.T) {
	c := NewConnWith(nil)
	c.SetUser("a")
	c.SetSchemas("s")
	c.SetUser("b")
	if l := c.Schemas(); len(l) != 1 {
		t.Fatal(l)
	}
}
''','a user change after schemas were set','the schema list is lost')
bug('b47-close-error-is-final','C03','c03-close-errclosed','sql/net','''package net

import (
	"errors"
	"net"
	"testing"
)

type opErr struct{}

func (opErr) Error() string   { return "reset" }
func (opErr) Timeout() bool   { return false }
func (opErr) Temporary() bool { return false }

type failing struct {
	net.Conn
	n int
}

func (f *failing) Close() error {
	f.n++
	if f.n == 1 {
		return opErr{}
	}
	return nil
}

func TestDemo(t *testing.T) {
	f := &failing{}
	c := NewConnWith(f)
	var e opErr
	if err := c.Close(); !errors.As(err, &e) {
		t.Fatal(err)
	}
	if err := c.Close(); err != nil || f.n != 2 {
		t.Fatal(err, f.n)
	}
}
''','a close that fails with a network error that is not a timeout, and a retry','the retry reports success although the transport is open')
bug('b48-names-buffer','C06','c06-names-shared','sql','''package sql

import (
	"strings"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(name string) {
			defer wg.Done()
			for i := 0; i < 300; i++ {
				s, err := NewParser().ParseString("INSERT INTO t (" + name + "1, " + name + "2) VALUES (1, 2)")
				if err != nil || strings.Count(s[0].String(), name) != 2 {
					t.Error(s, err)
					return
				}
			}
		}(string(rune('a' + g)))
	}
	wg.Wait()
}
''','two parsers that parse an INSERT at the same time','a statement carries the column names of another parser',race=True)
