import runpy,os
S={x[0]:x[2] for x in runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)),'s6.py'))['B']}
BUGS=[]
def bug(id,prop,cand,pkg,demo,needs,breaks,race=False):
    BUGS.append(dict(id=id,prop=prop,edits=S[cand],pkg=pkg,demo=demo,needs=needs,breaks=breaks,race=race))
NET='''package net

import (
	"net"
	"testing"
	"time"
)

type slow struct {
	net.Conn
	d      time.Duration
	closed bool
}

func (s *slow) Close() error {
	time.Sleep(s.d)
	s.closed = true
	return nil
}
'''
bug('b49-shutdown-time-limit','C02','c02-deadline-1s','sql/net',NET+'''
func TestDemo(t *testing.T) {
	m := NewConnManager()
	var ts []*slow
	for i := 0; i < 3; i++ {
		s := &slow{d: 1100 * time.Millisecond}
		ts = append(ts, s)
		if err := m.AddConn(NewConnWith(s, WithConnID(ConnID(i)))); err != nil {
			t.Fatal(err)
		}
	}
	if err := m.Close(); err != nil {
		t.Fatal(err)
	}
	for i, s := range ts {
		if !s.closed {
			t.Fatal("not closed", i)
		}
	}
}
''','a transport close that takes more than a second while other connections are still open','connections after the slow one are neither closed nor reported')
bug('b50-close-time-out-is-success','C02','c02-timeout-select','sql/net',NET+'''
func TestDemo(t *testing.T) {
	m := NewConnManager()
	s := &slow{d: 4 * time.Second}
	if err := m.AddConn(NewConnWith(s, WithConnID(1))); err != nil {
		t.Fatal(err)
	}
	err := m.Close()
	if _, ok := m.LookupConnByUID(1); err == nil && !ok {
		if time.Sleep(10 * time.Millisecond); !s.closed {
			t.Fatal("unregistered without having been closed")
		}
	}
}
''','a transport close that takes longer than the time-out of the shutdown','a shutdown unregisters a connection that has not been closed and hides its failure')
bug('b51-row-read-again','C09','c09-first-row-twice','sql/query/response/resultset','''package resultset

import (
	"errors"
	"testing"

	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
)

type flaky struct {
	ResultSet
	n int
}

func (f *flaky) Row() (Row, error) {
	if f.n++; f.n == 2 {
		return nil, errors.New("broken row")
	}
	return f.ResultSet.Row()
}

func TestDemo(t *testing.T) {
	col := query.NewColumnWithOptions(query.WithColumnName("a"), query.WithColumnData(query.NewDataDef(query.IntegerType, -1)))
	tbl := query.NewSchemaWith("demo", query.WithSchemaColumns(query.Columns{col}))
	sc, err := NewSchemaFrom(WithSchemaTableSchema(tbl), WithSchemaSelectors(query.Selectors{query.NewColumnWithName("a")}))
	if err != nil {
		t.Fatal(err)
	}
	src, err := NewResultSetFrom(WithResultSetSchema(sc), WithResultSetRowsOf([]map[string]any{{"a": 1}, {"a": 2}, {"a": 3}}))
	if err != nil {
		t.Fatal(err)
	}
	sum := fn.NewFunction(fn.WithFunctionName("SUM"), fn.WithFunctionArguments(fn.NewArgumentWith("a")))
	_, err = NewAggregatedResultSetFrom(
		WithAggregatedResultSetTableSchema(tbl),
		WithAggregatedResultSetSelectors(query.Selectors{sum}),
		WithAggregatedResultSetSource(&flaky{src, 0}))
	if err == nil {
		t.Fatal("a failed row read was hidden")
	}
}
''','a source whose read of a row fails once and succeeds when repeated','the failure of the source is hidden: a row is read twice and a result given')
bug('b52-identity-from-number','C13','c13-md5id','sql/net','''package net

import "testing"

func TestDemo(t *testing.T) {
	a := NewConnWith(nil, WithConnID(7), WithConnUser("u"))
	b := NewConnWith(nil, WithConnID(7), WithConnUser("u"))
	if a.UUID() == b.UUID() {
		t.Fatal(a.UUID())
	}
}
''','two connections created with the same number and user','two connections have the same identity although their entropy differs')
bug('b53-placeholder-two-digits','C16','c16-two-digits','sql/stmt','''package stmt

import (
	"fmt"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	var cs, ps, vs []string
	var params BindParams
	for i := 1; i <= 120; i++ {
		cs, ps, vs = append(cs, fmt.Sprintf("c%d", i)), append(ps, fmt.Sprintf("$%d", i)), append(vs, fmt.Sprint(i))
		params = append(params, NewBindParam(i))
	}
	q := "INSERT INTO t (" + strings.Join(cs, ", ") + ") VALUES ("
	got, err := NewBindStatement(WithBindStatementQuery(q+strings.Join(ps, ", ")+")"), WithBindStatementParams(params)).Statements()
	if err != nil {
		t.Fatal(err)
	}
	want, err := NewBindStatement(WithBindStatementQuery(q + strings.Join(vs, ", ") + ")")).Statements()
	if err != nil {
		t.Fatal(err)
	}
	if got[0].String() != want[0].String() {
		t.Fatal(got[0].String())
	}
}
''','a prepared statement with more than 99 numbered placeholders','placeholder $100 is bound to parameter 10')
