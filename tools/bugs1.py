BUGS=[]
def bug(id,prop,edits,pkg,demo,needs,breaks,race=False):
    BUGS.append(dict(id=id,prop=prop,edits=edits,pkg=pkg,demo=demo,needs=needs,breaks=breaks,race=race))
NET='sql/net'; MGR='sql/net/conn_manager_impl.go'; CONN='sql/net/conn_impl.go'
FAKE='''
type fakeConn struct {
	net.Conn
	onClose func() error
}

func (f *fakeConn) Close() error {
	if f.onClose != nil {
		return f.onClose()
	}
	return nil
}
'''
bug('b01-add-check-then-act','C01',[(MGR,'''	cm.mutex.Lock()
	defer cm.mutex.Unlock()

	uuid := c.UUID()
	if _, ok := cm.m[uuid]; ok {
		return newErrConnExist(uuid.String())
	}
	uid := c.ID()
	if _, ok := cm.uidMap[uid]; ok {
		return newErrConnExist(fmt.Sprintf("%d", uid))
	}
''','''	uuid := c.UUID()
	if _, ok := cm.LookupConnByUUID(uuid); ok {
		return newErrConnExist(uuid.String())
	}
	uid := c.ID()
	if _, ok := cm.LookupConnByUID(uid); ok {
		return newErrConnExist(fmt.Sprintf("%d", uid))
	}

	cm.mutex.Lock()
	defer cm.mutex.Unlock()
''')],NET,'''package net

import (
	"runtime"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(8)
	for n := 0; n < 200000; n++ {
		cm := NewConnManager()
		var wg sync.WaitGroup
		errs := make([]error, 4)
		start := make(chan struct{})
		for i := range errs {
			c := NewConnWith(nil, WithConnID(7))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				errs[i] = cm.AddConn(c)
			}()
		}
		close(start)
		wg.Wait()
		ok := 0
		for _, err := range errs {
			if err == nil {
				ok++
			}
		}
		if ok != 1 {
			t.Fatalf("%d registrations of one ID succeeded", ok)
		}
	}
}
''','two callers registering the same ID, both past the check before either inserts','two connections are registered under one ID; lookup by ID and listing disagree')

bug('b02-listing-cache','C01',[(MGR,'''	mutex  *sync.RWMutex
}''','''	mutex  *sync.RWMutex
	list   []Conn
}'''),(MGR,'''		mutex:  &sync.RWMutex{},
''','''		mutex:  &sync.RWMutex{},
		list:   nil,
'''),(MGR,'''	cm.m[uuid] = c
	cm.uidMap[uid] = c

	return nil
''','''	cm.m[uuid] = c
	cm.uidMap[uid] = c
	cm.list = nil

	return nil
'''),(MGR,'''	cm.mutex.RLock()
	defer cm.mutex.RUnlock()
	conns := make([]Conn, 0, len(cm.m))
	for _, conn := range cm.m {
		conns = append(conns, conn)
	}
	return conns
''','''	cm.mutex.Lock()
	defer cm.mutex.Unlock()
	if len(cm.list) != len(cm.m) {
		cm.list = make([]Conn, 0, len(cm.m))
		for _, conn := range cm.m {
			cm.list = append(cm.list, conn)
		}
	}
	conns := make([]Conn, len(cm.list))
	copy(conns, cm.list)
	return conns
''')],NET,'''package net

import "testing"

func TestDemo(t *testing.T) {
	cm := NewConnManager()
	a, b := NewConnWith(nil, WithConnID(1)), NewConnWith(nil, WithConnID(2))
	if err := cm.AddConn(a); err != nil {
		t.Fatal(err)
	}
	cm.Conns()
	if err := cm.UpdateConn(a, b); err != nil {
		t.Fatal(err)
	}
	l := cm.Conns()
	if len(l) != 1 || l[0] != b {
		t.Fatal("the listing still has the replaced connection")
	}
}
''','a listing, then a replacement, then another listing','the listing keeps showing a replaced connection')

bug('b03-shutdown-clears-newcomers','C02',[(MGR,'''			errs = errors.Join(errs, err)
		}
	}
	return errs
}''','''			errs = errors.Join(errs, err)
		}
	}
	if errs == nil {
		cm.mutex.Lock()
		clear(cm.m)
		clear(cm.uidMap)
		cm.mutex.Unlock()
	}
	return errs
}''')],NET,'''package net

import (
	"net"
	"testing"
)
'''+FAKE+'''
func TestDemo(t *testing.T) {
	cm := NewConnManager()
	late := NewConnWith(&fakeConn{}, WithConnID(2))
	first := NewConnWith(&fakeConn{onClose: func() error { return cm.AddConn(late) }}, WithConnID(1))
	if err := cm.AddConn(first); err != nil {
		t.Fatal(err)
	}
	if err := cm.Close(); err != nil {
		t.Fatal(err)
	}
	if _, ok := cm.LookupConnByUID(2); !ok {
		t.Fatal("an open connection was unregistered by the shutdown")
	}
}
''','a registration while a shutdown is closing connections','a shutdown unregisters a connection that was not closed')

bug('b04-shutdown-stops-at-timeout','C02',[(MGR,'''		} else {
			errs = errors.Join(errs, err)
		}
''','''		} else {
			errs = errors.Join(errs, err)
			var netErr net.Error
			if errors.As(err, &netErr) && netErr.Timeout() {
				break
			}
		}
'''),(MGR,'''	"fmt"
	"sync"
''','''	"fmt"
	"net"
	"sync"
''')],NET,'''package net

import (
	"net"
	"os"
	"testing"
)
'''+FAKE+'''
func TestDemo(t *testing.T) {
	for round := 0; round < 20; round++ {
		cm := NewConnManager()
		for id := uint64(1); id <= 4; id++ {
			f := &fakeConn{}
			if id == 2 {
				f.onClose = func() error { return os.ErrDeadlineExceeded }
			}
			if err := cm.AddConn(NewConnWith(f, WithConnID(ConnID(id)))); err != nil {
				t.Fatal(err)
			}
		}
		if err := cm.Close(); err == nil {
			t.Fatal("no error")
		}
		if n := len(cm.Conns()); n != 1 {
			t.Fatalf("%d connections are still registered", n)
		}
	}
}
''','a transport whose close fails with a timeout while others are still open','the shutdown gives up at the first timeout and leaves other connections open')

bug('b05-closed-before-close','C03',[(CONN,'''	if err := conn.Conn.Close(); err != nil {
		return err
	}
	conn.isClosed = true
	return nil
''','''	conn.isClosed = true
	if err := conn.Conn.Close(); err != nil {
		return err
	}
	return nil
''')],NET,'''package net

import (
	"errors"
	"net"
	"testing"
)
'''+FAKE+'''
func TestDemo(t *testing.T) {
	n := 0
	c := NewConnWith(&fakeConn{onClose: func() error {
		n++
		if n == 1 {
			return errors.New("no")
		}
		return nil
	}})
	if err := c.Close(); err == nil {
		t.Fatal("no error")
	}
	if err := c.Close(); err != nil || n != 2 {
		t.Fatalf("the close was not retried: %v, %d", err, n)
	}
}
''','a transport close that fails, then another close','the second close reports success although the transport is open')

bug('b06-close-waits-for-attributes','C03',[(CONN,'''	conn.closeMutex.Lock()
	defer conn.closeMutex.Unlock()
	if conn.isClosed {
		return nil
	}
	if err := conn.Conn.Close(); err != nil {
		return err
	}
	conn.isClosed = true
	return nil
''','''	conn.closeMutex.Lock()
	defer conn.closeMutex.Unlock()
	if conn.isClosed {
		return nil
	}
	if err := conn.Conn.Close(); err != nil {
		return err
	}
	conn.isClosed = true
	conn.SetDatabase("")
	return nil
''')],NET,'''package net

import (
	"net"
	"testing"
)
'''+FAKE+'''
func TestDemo(t *testing.T) {
	c := NewConnWith(&fakeConn{}, WithConnDatabase("db"), WithConnSchemas("s"))
	if err := c.Close(); err != nil {
		t.Fatal(err)
	}
	if c.Database() != "db" || len(c.Schemas()) != 1 {
		t.Fatal("the session attributes are gone after the close")
	}
}
''','reading session attributes after a successful close','closing wipes the session attributes')

bug('b07-setdatabase-two-steps','C04',[(CONN,'''	conn.Lock()
	defer conn.Unlock()
	conn.db = db
	conn.schemas = []string{}
''','''	conn.Lock()
	conn.db = db
	conn.Unlock()
	conn.Lock()
	conn.schemas = []string{}
	conn.Unlock()
''')],NET,'''package net

import (
	"runtime"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(8)
	for n := 0; n < 300000; n++ {
		c := NewConnWith(nil, WithConnSchemas("old"))
		var wg sync.WaitGroup
		wg.Add(2)
		bad := false
		go func() { defer wg.Done(); c.SetDatabase("new") }()
		go func() {
			defer wg.Done()
			for k := 0; k < 20; k++ {
				if c.Database() == "new" {
					bad = len(c.Schemas()) != 0
					return
				}
			}
		}()
		wg.Wait()
		if bad {
			t.Fatal("the new database is seen with the old schema list")
		}
	}
}
''','a read of database and schemas between the two steps of a database change','the new database is observed together with the old schema list')

bug('b08-schemas-not-copied','C04',[(CONN,'''	schemas := make([]string, len(conn.schemas))
	copy(schemas, conn.schemas)
	return schemas
''','''	schemas := conn.schemas[:]
	return schemas
''')],NET,'''package net

import "testing"

func TestDemo(t *testing.T) {
	c := NewConnWith(nil, WithConnSchemas("a", "b"))
	l := c.Schemas()
	l[0] = "x"
	if c.Schemas()[0] != "a" {
		t.Fatal("the caller's list is the connection's own")
	}
}
''','a caller changing the schema list it was given','the returned list is shared with the connection')

bug('b09-read-remembers-eof','C05',[(CONN,'''	tracerContext tracer.Context
}''','''	tracerContext tracer.Context
	readErr       error
}

// Read reads from the raw connection.
func (conn *conn) Read(b []byte) (int, error) {
	if conn.readErr != nil {
		return 0, conn.readErr
	}
	n, err := conn.Conn.Read(b)
	if err != nil && n == 0 {
		conn.readErr = err
	}
	return n, err
}'''),(CONN,'''		tracerContext: nil,
''','''		tracerContext: nil,
		readErr:       nil,
''')],NET,'''package net

import (
	"net"
	"os"
	"testing"
)

type flaky struct {
	net.Conn
	n int
}

func (f *flaky) Read(b []byte) (int, error) {
	f.n++
	if f.n == 1 {
		return 0, os.ErrDeadlineExceeded
	}
	return copy(b, "x"), nil
}

func TestDemo(t *testing.T) {
	c := NewConnWith(&flaky{})
	b := make([]byte, 4)
	if _, err := c.Read(b); err == nil {
		t.Fatal("no error")
	}
	if n, err := c.Read(b); n != 1 || err != nil {
		t.Fatalf("%d %v", n, err)
	}
}
''','a read that times out, then another read','a timeout is remembered: later reads never reach the transport')

bug('b10-write-completes-short','C05',[(CONN,'''// NewConnWith returns a connection with a raw connection.
func''','''// Write writes all of the bytes to the raw connection.
func (conn *conn) Write(b []byte) (int, error) {
	sent := 0
	for {
		n, err := conn.Conn.Write(b[sent:])
		sent += n
		if sent == len(b) || n == 0 {
			return sent, err
		}
	}
}

// NewConnWith returns a connection with a raw connection.
func'''),(CONN,'''	conn.Lock()
	defer conn.Unlock()
	conn.user = user
''','''	conn.Lock()
	conn.user = user
	conn.Unlock()
''')],NET,'''package net

import (
	"errors"
	"net"
	"testing"
)

type short struct {
	net.Conn
	n int
}

func (f *short) Write(b []byte) (int, error) {
	f.n++
	if f.n == 1 {
		return 1, errors.New("reset")
	}
	return len(b), nil
}

func TestDemo(t *testing.T) {
	c := NewConnWith(&short{})
	if n, err := c.Write([]byte("abc")); n != 1 || err == nil {
		t.Fatalf("%d %v", n, err)
	}
}
''','a write that fails after part of the bytes','a partial failure is hidden from the writer and the rest is sent again')
PA='sql/parser/sqlite/parser_antlr.go'; SQ='sql'
bug('b11-shared-visitor-list','C06',[(PA,'''// NewParser returns a new parser.
func''','''// defaultErrorListener is shared by the parsers to save an allocation per parse.
var defaultErrorListener = newANTLRParserErrorListener()

// NewParser returns a new parser.
func'''),(PA,'''	parser.errorListener = newANTLRParserErrorListener()
	parser.parser.AddErrorListener(parser.errorListener)
	parser.parser.BuildParseTrees = true
	tree := parser.parser.Parse()
''','''	parser.errorListener = defaultErrorListener
	parser.errorListener.done = true
	parser.parser.AddErrorListener(parser.errorListener)
	parser.parser.BuildParseTrees = true
	tree := parser.parser.Parse()
''')],SQ,'''package sql

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 200; n++ {
				bad := g%2 == 1
				q := "SELECT a FROM t WHERE b = 1"
				if bad {
					q = "SELECT FROM WHERE ((("
				}
				_, err := NewParser().ParseString(q)
				if bad != (err != nil) {
					t.Errorf("%q: %v", q, err)
					return
				}
			}
		}()
	}
	wg.Wait()
}
''','a malformed and a valid statement parsed at the same time by two parsers','parsers share their error state')

bug('b12-same-text-returns-last','C07',[(PA,'''	stmts         query.StatementList
	errorListener *antlrParserErrorListener
}''','''	stmts         query.StatementList
	lastQuery     string
	errorListener *antlrParserErrorListener
}'''),(PA,'''		stmts:         nil,
''','''		stmts:         nil,
		lastQuery:     "",
'''),(PA,'''	if len(queryString) == 0 {
		return nil, errors.ErrEmptyQuery
	}
''','''	if queryString == parser.lastQuery {
		return parser.stmts, nil
	}
	parser.lastQuery = queryString
''')],SQ,'''package sql

import "testing"

func TestDemo(t *testing.T) {
	p := NewParser()
	for n := 0; n < 2; n++ {
		if _, err := p.ParseString("SELECT FROM WHERE ((("); err == nil {
			t.Fatalf("attempt %d: accepted", n)
		}
	}
}
''','the same malformed text twice in a row on one parser','a reused parser accepts on the second attempt what it rejected')
