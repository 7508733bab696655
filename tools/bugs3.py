BUGS=[]
def bug(id,prop,edits,pkg,demo,needs,breaks,race=False):
    BUGS.append(dict(id=id,prop=prop,edits=edits,pkg=pkg,demo=demo,needs=needs,breaks=breaks,race=race))
bug('b16-row-names-by-length','C10',[('sql/query/response/resultset/row_impl.go','''		sort.Strings(keys)
''','''		sort.SliceStable(keys, func(i, j int) bool { return len(keys[i]) < len(keys[j]) })
''')],'sql/query/response/resultset','''package resultset

import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	for n := 0; n < 200; n++ {
		r := NewRow(WithRowObject(map[string]any{"a": 1, "b": 2, "c": 3, "dd": 4}))
		if s := fmt.Sprint(r.Values()); s != "[1 2 3 4]" {
			t.Fatal(s)
		}
	}
}
''','a row object with two names of the same length and a particular map iteration order','the order of a row\'s values depends on the map iteration order')
bug('b25-statement-cache-folds-case','C14',[('sql/parser/sqlite/parser_antlr.go','''	parser.stmts = stmtList

	return parser.stmts, nil
''','''	parser.stmts = stmtList
	if len(stmtList) == 1 && stmtList[0].StatementType() == query.SelectStatement {
		stmtCache.Store(strings.ToUpper(queryString), stmtList)
	}

	return parser.stmts, nil
'''),('sql/parser/sqlite/parser_antlr.go','''	if len(queryString) == 0 {
		return nil, errors.ErrEmptyQuery
	}
''','''	if stmtList, ok := stmtCache.Load(strings.ToUpper(queryString)); ok {
		parser.stmts = stmtList.(query.StatementList)
		return parser.stmts, nil
	}
'''),('sql/parser/sqlite/parser_antlr.go','''// NewParser returns a new parser.
''','''// stmtCache holds the parsed SELECT statements.
var stmtCache sync.Map

// NewParser returns a new parser.
'''),('sql/parser/sqlite/parser_antlr.go','''	"fmt"

''','''	"fmt"
	"strings"
	"sync"

''')],'sql','''package sql

import (
	"testing"
)

func TestDemo(t *testing.T) {
	for _, q := range []string{"SELECT a FROM t WHERE b = 'x'", "SELECT a FROM t WHERE b = 'X'"} {
		stmts, err := NewParser().ParseString(q)
		if err != nil {
			t.Fatal(err)
		}
		if s := stmts[0].String(); s != q {
			t.Fatalf("%q was parsed as %q", q, s)
		}
	}
}
''','two sessions sending statements that differ only in the case of a literal','a session gets the answer to another session\'s statement')
bug('b26-limit-window','C11',[('sql/query/response/resultset/resultset_impl.go','''	if rs.rowCursor < rs.offset {
		rs.rowCursor = rs.offset
	}
''','''	if rs.rowCursor == 0 {
		rs.rowCursor += rs.offset
	}
''')],'sql/query/response/resultset','','','')
BUGS.pop()
bug('b27-close-error-joins-last','C02',[('sql/net/conn_manager_impl.go','''	if err := cm.Close(); err != nil {
		return err
	}
	return nil
''','''	err := cm.Close()
	if err != nil && len(cm.Conns()) == 0 {
		return err
	}
	return nil
''')],'sql/net','''package net

import (
	"errors"
	"net"
	"testing"
)

type fakeConn struct{ net.Conn }

func (f *fakeConn) Close() error { return errors.New("no") }

func TestDemo(t *testing.T) {
	cm := NewConnManager()
	if err := cm.AddConn(NewConnWith(&fakeConn{})); err != nil {
		t.Fatal(err)
	}
	if err := cm.Stop(); err == nil {
		t.Fatal("the failure is not reported")
	}
}
''','a transport close failure during Stop','stopping reports success although a connection is still open')
bug('b28-avg-count-of-last-group','C09',[('sql/fn/aggr_impl.go','''		aggr.groupCounts[groupSetKey]++
''','''		aggr.counts++
		aggr.groupCounts[groupSetKey] = max(aggr.groupCounts[groupSetKey]+1, aggr.counts/(len(aggr.groupKeys)*2))
''')],'sql/fn','''package fn

import "testing"

func TestDemo(t *testing.T) {
	aggr, err := NewAggregatorForName("AVG", WithAggregatorArguments([]string{"a"}), WithAggregatorGroupBys("g"))
	if err != nil {
		t.Fatal(err)
	}
	if err := aggr.Reset(); err != nil {
		t.Fatal(err)
	}
	for n := 0; n < 12; n++ {
		if err := aggr.Aggregate([]any{"x", 6}); err != nil {
			t.Fatal(err)
		}
	}
	if err := aggr.Aggregate([]any{"y", 6}); err != nil {
		t.Fatal(err)
	}
	rs, err := aggr.Finalize()
	if err != nil {
		t.Fatal(err)
	}
	for rs.Next() {
		row, err := rs.Row()
		if err != nil || row[1].(float64) != 6 {
			t.Fatal(row, err)
		}
	}
}
''','a small group that appears after many rows of other groups','the average of a late small group is too low')
bug('b29-visitor-stack','C06',[],'sql','','','')
BUGS.pop()
