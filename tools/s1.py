B=[]
def b(i,p,*e): B.append((i,p,list(e)))
N='sql/net/conn_manager_impl.go'; C='sql/net/conn_impl.go'
b('c01-id0-unchecked','C01',(N,'''	if _, ok := cm.uidMap[uid]; ok {''','''	if _, ok := cm.uidMap[uid]; ok && uid != 0 {'''))
b('c01-removeuid-split','C01',(N,'''	cm.mutex.Lock()
	defer cm.mutex.Unlock()
	conn, ok := cm.uidMap[cid]
	if !ok {
		return
	}
''','''	conn, ok := cm.LookupConnByUID(cid)
	if !ok {
		return
	}
	cm.mutex.Lock()
	defer cm.mutex.Unlock()
'''))
b('c01-removeuuid-split','C01',(N,'''	cm.mutex.Lock()
	defer cm.mutex.Unlock()
	conn, ok := cm.m[uuid]
	if !ok {
		return
	}
''','''	conn, ok := cm.LookupConnByUUID(uuid)
	if !ok {
		return
	}
	cm.mutex.Lock()
	defer cm.mutex.Unlock()
'''))
b('c01-update-delete-after','C01',(N,'''	delete(cm.m, fromUUID)
	delete(cm.uidMap, fromUID)
	cm.m[toUUID] = to
	cm.uidMap[toUID] = to
''','''	cm.m[toUUID] = to
	cm.uidMap[toUID] = to
	if fromUUID != toUUID {
		delete(cm.m, fromUUID)
		delete(cm.uidMap, fromUID)
	}
'''))
b('c01-update-keeps-old-id','C01',(N,'''	delete(cm.uidMap, fromUID)
	cm.m[toUUID]''','''	if fromUUID != toUUID {
		delete(cm.uidMap, fromUID)
	}
	cm.m[toUUID]'''))
b('c01-conns-len-unlocked','C01',(N,'''	cm.mutex.RLock()
	defer cm.mutex.RUnlock()
	conns := make([]Conn, 0, len(cm.m))
''','''	conns := make([]Conn, 0, len(cm.m))
	cm.mutex.RLock()
	defer cm.mutex.RUnlock()
'''))
b('c01-update-two-locks','C01',(N,'''	delete(cm.m, fromUUID)
	delete(cm.uidMap, fromUID)
	cm.m[toUUID] = to
''','''	delete(cm.m, fromUUID)
	delete(cm.uidMap, fromUID)
	cm.mutex.Unlock()
	cm.mutex.Lock()
	cm.m[toUUID] = to
'''))
CL='''		err := conn.Close()
		if err == nil {
			if err := cm.RemoveConn(conn); err != nil {
				errs = errors.Join(errs, err)
			}
		} else {
			errs = errors.Join(errs, err)
		}
'''
b('c02-close-by-uid','C02',(N,CL,CL.replace('''			if err := cm.RemoveConn(conn); err != nil {
				errs = errors.Join(errs, err)
			}
''','''			cm.RemoveConnByUID(conn.ID())
''')))
b('c02-close-by-uuid','C02',(N,CL,CL.replace('''			if err := cm.RemoveConn(conn); err != nil {
				errs = errors.Join(errs, err)
			}
''','''			cm.RemoveConnByUUID(conn.UUID())
''')))
b('c02-errclosed-ok','C02',(N,'''		err := conn.Close()
		if err == nil {''','''		err := conn.Close()
		if err == nil || errors.Is(err, net.ErrClosed) {'''),(N,'''	"fmt"
	"sync"''','''	"fmt"
	"net"
	"sync"'''))
b('c02-remove-first','C02',(N,CL,'''		if err := cm.RemoveConn(conn); err != nil {
			errs = errors.Join(errs, err)
		}
		if err := conn.Close(); err != nil {
			errs = errors.Join(errs, err, cm.AddConn(conn))
		}
'''))
b('c02-dedupe','C02',(N,'''		} else {
			errs = errors.Join(errs, err)
		}
''','''		} else if errs == nil || !strings.Contains(errs.Error(), err.Error()) {
			errs = errors.Join(errs, err)
		}
'''),(N,'''	"fmt"
''','''	"fmt"
	"strings"
'''))
b('c02-errors-as-text','C02',(N,'''		} else {
			errs = errors.Join(errs, err)
		}
''','''		} else if errs == nil {
			errs = err
		} else {
			errs = fmt.Errorf("%w; %s", errs, err.Error())
		}
'''))
b('c02-max-errors','C02',(N,'''	for _, conn := range conns {
		err := conn.Close()''','''	for n, conn := range conns {
		if errs != nil && 4 < n {
			break
		}
		err := conn.Close()'''))
b('c02-stop-swallows-on-empty','C02',(N,'''	if err := cm.Close(); err != nil {
		return err
	}
	return nil''','''	if err := cm.Close(); err != nil && 0 < len(cm.Conns()) {
		return err
	}
	return nil'''))
b('c03-errclosed-success','C03',(C,'''	if err := conn.Conn.Close(); err != nil {
		return err
	}''','''	if err := conn.Conn.Close(); err != nil && !errors.Is(err, net.ErrClosed) {
		return err
	}'''),(C,'''	"context"
''','''	"context"
	"errors"
'''))
b('c03-trylock','C03',(C,'''	conn.closeMutex.Lock()
	defer''','''	if !conn.closeMutex.TryLock() {
		return nil
	}
	defer'''))
b('c03-unsync-fastpath','C03',(C,'''	conn.closeMutex.Lock()
	defer''','''	if conn.isClosed {
		return nil
	}
	conn.closeMutex.Lock()
	defer'''))
b('c03-clears-attrs','C03',(C,'''	conn.isClosed = true
	return nil''','''	conn.isClosed = true
	conn.SetDatabase("")
	return nil'''))
b('c03-unlock-during-close','C03',(C,'''	if err := conn.Conn.Close(); err != nil {
		return err
	}
	conn.isClosed = true
''','''	conn.closeMutex.Unlock()
	err := conn.Conn.Close()
	conn.closeMutex.Lock()
	if err != nil {
		return err
	}
	conn.isClosed = true
'''))
b('c03-timeout-is-closed','C03',(C,'''	if err := conn.Conn.Close(); err != nil {
		return err
	}''','''	if err := conn.Conn.Close(); err != nil {
		if ne, ok := err.(net.Error); ok && !ne.Timeout() {
			conn.isClosed = true
		}
		return err
	}'''))
b('c04-same-db-keeps','C04',(C,'''	conn.db = db
	conn.schemas = []string{}''','''	if conn.db == db {
		return
	}
	conn.db = db
	conn.schemas = []string{}'''))
b('c04-fold','C04',(C,'''		found := slices.Contains(conn.schemas, schema)''','''		found := slices.ContainsFunc(conn.schemas, func(s string) bool { return strings.EqualFold(s, schema) })'''),(C,'''	"slices"
''','''	"slices"
	"strings"
'''))
b('c04-alias','C04',(C,'''		conn.schemas = slices.Clone(schemas)''','''		conn.schemas = schemas'''),)
b('c04-alias-trunc','C04',(C,'''		conn.schemas = slices.Clone(schemas)''','''		conn.schemas = schemas[:len(schemas):len(schemas)]'''),(C,'''	conn.schemas = []string{}
}''','''	conn.schemas = conn.schemas[:0]
}'''))
b('c04-schemas-unlocked-copy','C04',(C,'''	schemas := make([]string, len(conn.schemas))
	copy(schemas, conn.schemas)
	return schemas''','''	schemas := conn.schemas
	return schemas[:len(schemas):len(schemas)]'''))
b('c04-precheck','C04',(C,'''	conn.Lock()
	defer conn.Unlock()
	for _, schema := range schemas {
		found := slices.Contains(conn.schemas, schema)''','''	cur := conn.Schemas()
	conn.Lock()
	defer conn.Unlock()
	for _, schema := range schemas {
		found := slices.Contains(cur, schema)'''))
b('c04-dup-in-call','C04',(C,'''	for _, schema := range schemas {
		found := slices.Contains(conn.schemas, schema)''','''	cur := conn.schemas
	for _, schema := range schemas {
		found := slices.Contains(cur, schema)'''))
RD='''// SetUser sets a user name.'''
b('c05-empty-read','C05',(C,RD,'''// Read reads.
func (conn *conn) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	return conn.Conn.Read(p)
}

'''+RD))
b('c05-chunked-write','C05',(C,RD,'''// Write writes.
func (conn *conn) Write(p []byte) (int, error) {
	n := 0
	for n < len(p) {
		end := min(n+4096, len(p))
		w, err := conn.Conn.Write(p[n:end])
		n += w
		if err != nil {
			return n, err
		}
	}
	return n, nil
}

'''+RD))
b('c05-retry-timeout','C05',(C,RD,'''// Write writes.
func (conn *conn) Write(p []byte) (int, error) {
	n, err := conn.Conn.Write(p)
	if ne, ok := err.(net.Error); ok && ne.Timeout() && n < len(p) {
		var m int
		m, err = conn.Conn.Write(p[n:])
		n += m
	}
	return n, err
}

'''+RD))
b('c05-zero-deadline','C05',(C,RD,'''// SetReadDeadline sets.
func (conn *conn) SetReadDeadline(t time.Time) error {
	if t.IsZero() {
		return nil
	}
	return conn.Conn.SetReadDeadline(t)
}

'''+RD))
b('c05-deadline-read-only','C05',(C,RD,'''// SetDeadline sets.
func (conn *conn) SetDeadline(t time.Time) error {
	if err := conn.Conn.SetReadDeadline(t); err != nil {
		return err
	}
	return conn.Conn.SetWriteDeadline(t)
}

'''+RD))
b('c05-read-after-close','C05',(C,RD,'''// Read reads.
func (conn *conn) Read(p []byte) (int, error) {
	conn.closeMutex.Lock()
	closed := conn.isClosed
	conn.closeMutex.Unlock()
	if closed {
		return 0, net.ErrClosed
	}
	return conn.Conn.Read(p)
}

'''+RD))
b('c05-addr-cached','C05',(C,RD,'''// RemoteAddr returns the address.
func (conn *conn) RemoteAddr() net.Addr {
	conn.Lock()
	defer conn.Unlock()
	if conn.addr == nil {
		conn.addr = conn.Conn.RemoteAddr()
	}
	return conn.addr
}

'''+RD),(C,'''	isClosed      bool
''','''	isClosed      bool
	addr          net.Addr
'''))
b('c05-eof-with-data','C05',(C,RD,'''// Read reads.
func (conn *conn) Read(p []byte) (int, error) {
	n, err := conn.Conn.Read(p)
	if 0 < n && err == io.EOF {
		return n, nil
	}
	return n, err
}

'''+RD),(C,'''	"context"
''','''	"context"
	"io"
'''))
