B=[]
def b(i,p,*e): B.append((i,p,list(e)))
N='sql/net/conn_manager_impl.go'; C='sql/net/conn_impl.go'; PA='sql/parser/sqlite/parser_antlr.go'
AI='sql/fn/aggr_impl.go'; AS='sql/fn/aggr_set.go'; RI='sql/query/response/resultset/resultset_impl.go'; RA='sql/query/response/resultset/resultset_aggr.go'
RH='sql/query/response/resultset/row_helper.go'; SC='sql/query/schema.go'; BI='sql/stmt/bind_impl.go'; BP='sql/stmt/bind_param_impl.go'
SF='sql/system/schema_columns_resutset_from.go'; MF='sql/fn/math_func.go'; TF='sql/fn/time_func.go'; DT='sql/query/data_type.go'; GB='sql/fn/groupby.go'
# C01
b('c01-update-same-ids-noop','C01',(N,'''	delete(cm.m, fromUUID)
	delete(cm.uidMap, fromUID)
''','''	if toUUID == fromUUID && toUID == fromUID {
		return nil
	}
	delete(cm.m, fromUUID)
	delete(cm.uidMap, fromUID)
'''))
b('c01-uid32','C01',(N,'uidMap map[uint64]Conn\n','uidMap map[uint32]Conn\n'),(N,'uidMap: map[uint64]Conn{}','uidMap: map[uint32]Conn{}'),
 (N,'''	uid := c.ID()
''','''	uid := uint32(c.ID())
'''),(N,'''	toUID := to.ID()
	if _, ok := cm.uidMap[toUID]; ok && toUID != fromUID {''','''	toUID := uint32(to.ID())
	if _, ok := cm.uidMap[toUID]; ok && to.ID() != fromUID {'''),(N,'delete(cm.uidMap, fromUID)','delete(cm.uidMap, uint32(fromUID))'),
 (N,'c, ok := cm.uidMap[cid]','c, ok := cm.uidMap[uint32(cid)]'),(N,'delete(cm.uidMap, conn.ID())\n	delete(cm.m, conn.UUID())\n	return','delete(cm.uidMap, uint32(conn.ID()))\n	delete(cm.m, conn.UUID())\n	return'),
 (N,'conn, ok := cm.uidMap[cid]','conn, ok := cm.uidMap[uint32(cid)]'),(N,'delete(cm.uidMap, cid)','delete(cm.uidMap, uint32(cid))'),(N,'delete(cm.uidMap, conn.ID())\n	delete(cm.m, uuid)','delete(cm.uidMap, uint32(conn.ID()))\n	delete(cm.m, uuid)'))
b('c01-last-lookup','C01',(N,'''	mutex  *sync.RWMutex
}''','''	mutex  *sync.RWMutex
	last   atomic.Value
}
type lastConn struct{ c Conn }'''),(N,'"sync"\n','"sync"\n	"sync/atomic"\n'),(N,'''	cm.mutex.RLock()
	defer cm.mutex.RUnlock()
	c, ok := cm.m[uuid]
	return c, ok''','''	if l, ok := cm.last.Load().(lastConn); ok && l.c != nil && l.c.UUID() == uuid {
		return l.c, true
	}
	cm.mutex.RLock()
	defer cm.mutex.RUnlock()
	c, ok := cm.m[uuid]
	if ok {
		cm.last.Store(lastConn{c})
	}
	return c, ok'''),(N,'''	registered, ok := cm.m[conn.UUID()]
	if !ok ||''','''	cm.last.Store(lastConn{nil})
	registered, ok := cm.m[conn.UUID()]
	if !ok ||'''),(N,'''	delete(cm.uidMap, conn.ID())
	delete(cm.m, uuid)''','''	cm.last.Store(lastConn{nil})
	delete(cm.uidMap, conn.ID())
	delete(cm.m, uuid)'''),(N,'''	delete(cm.m, fromUUID)
''','''	cm.last.Store(lastConn{nil})
	delete(cm.m, fromUUID)
'''),(N,'''	delete(cm.uidMap, cid)
	delete(cm.m, conn.UUID())''','''	cm.last.Store(lastConn{nil})
	delete(cm.uidMap, cid)
	delete(cm.m, conn.UUID())'''))
b('c01-tryrlock','C01',(N,'''	cm.mutex.RLock()
	defer cm.mutex.RUnlock()
	c, ok := cm.uidMap[cid]''','''	if !cm.mutex.TryRLock() {
		return nil, false
	}
	defer cm.mutex.RUnlock()
	c, ok := cm.uidMap[cid]'''))
b('c01-lock-by-uuid-then-list','C01',(N,'''	for _, conn := range cm.m {
		conns = append(conns, conn)
	}''','''	for id := range cm.uidMap {
		cm.mutex.RUnlock()
		c, ok := cm.LookupConnByUID(id)
		cm.mutex.RLock()
		if ok {
			conns = append(conns, c)
		}
	}'''))
b('c01-map-reset-when-empty','C01',(N,'''	delete(cm.uidMap, conn.ID())
	delete(cm.m, conn.UUID())
	return nil''','''	delete(cm.uidMap, conn.ID())
	delete(cm.m, conn.UUID())
	if len(cm.m) == 0 {
		cm.m = map[uuid.UUID]Conn{}
		cm.uidMap = map[uint64]Conn{}
		cm.mutex = &sync.RWMutex{}
	}
	return nil'''))
# C02
b('c02-max-8','C02',(N,'''			errs = errors.Join(errs, err)
		}
	}
	return errs''','''			errs = errors.Join(errs, err)
			failed++
			if 8 < failed {
				break
			}
		}
	}
	return errs'''),(N,'	var errs error\n','	var errs error\n	failed := 0\n'))
b('c02-max-16-conns','C02',(N,'''	for _, conn := range conns {
		err := conn.Close()''','''	for n, conn := range conns {
		if 16 <= n {
			break
		}
		err := conn.Close()'''))
b('c02-same-error-stops','C02',(N,'''			errs = errors.Join(errs, err)
		}
	}
	return errs''','''			if last != nil && errors.Is(err, last) {
				return errs
			}
			last = err
			errs = errors.Join(errs, err)
		}
	}
	return errs'''),(N,'	var errs error\n','	var errs, last error\n'))
b('c02-parallel-wait-remove-all','C02',(N,'''		err := conn.Close()
		if err == nil {
			if err''','''		err := conn.Close()
		if err == nil || errors.Is(err, net.ErrClosed) {
			if err'''),(N,'"fmt"\n','"fmt"\n	"net"\n'))
b('c02-closing-flag','C02',(N,'''	mutex  *sync.RWMutex
}''','''	mutex  *sync.RWMutex
	closing atomic.Bool
}'''),(N,'"sync"\n','"sync"\n	"sync/atomic"\n'),(N,'	var errs error\n','''	var errs error
	if !cm.closing.CompareAndSwap(false, true) {
		return nil
	}
	defer cm.closing.Store(false)
'''))
b('c02-close-once','C02',(N,'''	mutex  *sync.RWMutex
}''','''	mutex  *sync.RWMutex
	once   sync.Once
	err    error
}'''),(N,'''	if err := cm.Close(); err != nil {
		return err
	}
	return nil''','''	cm.once.Do(func() { cm.err = cm.Close() })
	return cm.err'''))
# C03
b('c03-gives-up','C03',(C,'isClosed      bool\n','isClosed      bool\n	failures      int\n'),(C,'''	if err := conn.Conn.Close(); err != nil {
		return err''','''	if err := conn.Conn.Close(); err != nil {
		conn.failures++
		if 4 <= conn.failures {
			conn.isClosed = true
			return nil
		}
		return err'''))
b('c03-error-kept','C03',(C,'isClosed      bool\n','isClosed      bool\n	closeErr      error\n'),(C,'''	if err := conn.Conn.Close(); err != nil {
		return err''','''	if err := conn.Conn.Close(); err != nil {
		if conn.closeErr == nil {
			conn.closeErr = err
		}
		return conn.closeErr'''))
b('c03-joined-closers-nil','C03',(C,'isClosed      bool\n','isClosed      bool\n	closers       int32\n'),(C,'''	conn.closeMutex.Lock()
	defer conn.closeMutex.Unlock()
''','''	if 1 < atomic.AddInt32(&conn.closers, 1) {
		conn.closeMutex.Lock()
		defer conn.closeMutex.Unlock()
		atomic.AddInt32(&conn.closers, -1)
		return nil
	}
	defer atomic.AddInt32(&conn.closers, -1)
	conn.closeMutex.Lock()
	defer conn.closeMutex.Unlock()
'''),(C,'	"sync"\n','	"sync"\n	"sync/atomic"\n'))
b('c03-temporary-retry','C03',(C,'''	if err := conn.Conn.Close(); err != nil {
		return err''','''	if err := conn.Conn.Close(); err != nil {
		if errors.Is(err, syscall.EINTR) {
			conn.isClosed = true
			return nil
		}
		return err'''),(C,'	"context"\n','	"context"\n	"errors"\n	"syscall"\n'))
b('c03-wrap','C03',(C,'''	if err := conn.Conn.Close(); err != nil {
		return err''','''	if err := conn.Conn.Close(); err != nil {
		return errors.New(err.Error())'''),(C,'	"context"\n','	"context"\n	"errors"\n'))
# C04
b('c04-cap-64','C04',(C,'''		if !found {
''','''		if !found && len(conn.schemas) < 64 {
'''))
b('c04-recent-16','C04',(C,'''		found := slices.Contains(conn.schemas, schema)''','''		found := slices.Contains(conn.schemas[max(0, len(conn.schemas)-16):], schema)'''))
b('c04-empty-db-noop-clear','C04',(C,'''	conn.db = db
	conn.schemas = []string{}
}''','''	conn.db = db
	if db != "" {
		conn.schemas = []string{}
	}
}'''))
b('c04-nilctx','C04',(C,'''	defer conn.Unlock()
	conn.tracerContext = ctx''','''	defer conn.Unlock()
	if ctx != nil {
		conn.tracerContext = ctx
	}'''))
b('c04-pool','C04',(C,'''	conn.db = db
	conn.schemas = []string{}''','''	conn.db = db
	if 4 < cap(conn.schemas) {
		schemaPool.Put(conn.schemas[:0])
	}
	if s, ok := schemaPool.Get().([]string); ok {
		conn.schemas = s
	} else {
		conn.schemas = []string{}
	}'''),(C,'''// ConnOption represents''','''var schemaPool sync.Pool

// ConnOption represents'''))
b('c04-set-grow-in-two','C04',(C,'''	for _, schema := range schemas {
		found''','''	if 3 < len(schemas) {
		conn.Unlock()
		conn.SetSchemas(schemas[:3]...)
		conn.SetSchemas(schemas[3:]...)
		conn.Lock()
		return
	}
	for _, schema := range schemas {
		found'''))
b('c04-empty-name','C04',(C,'''		if !found {
''','''		if !found && schema != "" {
'''))
b('c04-map-dedup','C04',(C,'''	for _, schema := range schemas {
		found := slices.Contains(conn.schemas, schema)
		if !found {
			conn.schemas = append(conn.schemas, schema)
		}
	}''','''	known := map[string]bool{}
	for _, schema := range conn.schemas {
		known[schema] = true
	}
	added := map[string]bool{}
	for _, schema := range schemas {
		if !known[schema] {
			added[schema] = true
		}
	}
	if 8 < len(added) {
		for schema := range added {
			conn.schemas = append(conn.schemas, schema)
		}
		return
	}
	for _, schema := range schemas {
		if added[schema] {
			conn.schemas = append(conn.schemas, schema)
			delete(added, schema)
		}
	}'''))
W='''
// Write writes to the transport.
func (conn *conn) Write(b []byte) (int, error) {
%s}

// SetUser sets a user name.'''
def wr(i,body,*more): b(i,'C05',(C,'''
// SetUser sets a user name.''',W%body),*more)
wr('c05-chunk-64k','''	total := 0
	for 65536 < len(b)-total {
		n, err := conn.Conn.Write(b[total:total+65536])
		total += n
		if err != nil {
			return total, err
		}
	}
	n, err := conn.Conn.Write(b[total:])
	return total + n, err
''')
wr('c05-chunk-4k-short','''	total := 0
	for 4096 < len(b)-total {
		n, err := conn.Conn.Write(b[total:total+4096])
		total += n
		if err != nil {
			return total, err
		}
	}
	n, err := conn.Conn.Write(b[total:])
	return total + n, err
''')
wr('c05-empty-write','''	if len(b) == 0 {
		return 0, nil
	}
	return conn.Conn.Write(b)
''')
wr('c05-neg','''	n, err := conn.Conn.Write(b)
	if err != nil {
		return 0, err
	}
	return n, err
''')
wr('c05-copy-write','''	c := make([]byte, len(b))
	copy(c, b)
	n, err := conn.Conn.Write(c)
	if n < len(b) && err == nil {
		err = io.ErrShortWrite
	}
	return n, err
''',(C,'	"context"\n','	"context"\n	"io"\n'))
wr('c05-write-after-close','''	if conn.isClosed {
		return 0, net.ErrClosed
	}
	return conn.Conn.Write(b)
''')
b('c05-read-buf-shared','C05',(C,'''
// SetUser sets a user name.''','''
var readBufs = sync.Pool{New: func() any { b := make([]byte, 512); return &b }}

// Read reads from the transport.
func (conn *conn) Read(b []byte) (int, error) {
	if 512 < len(b) {
		return conn.Conn.Read(b)
	}
	buf := readBufs.Get().(*[]byte)
	n, err := conn.Conn.Read((*buf)[:len(b)])
	readBufs.Put(buf)
	copy(b, (*buf)[:n])
	return n, err
}

// SetUser sets a user name.'''))
b('c05-set-deadline','C05',(C,'''
// SetUser sets a user name.''','''
// SetDeadline sets the deadlines.
func (conn *conn) SetDeadline(t time.Time) error {
	if err := conn.Conn.SetReadDeadline(t); err != nil {
		return err
	}
	return conn.Conn.SetWriteDeadline(t)
}

// SetUser sets a user name.'''))
b('c05-utc-deadline','C05',(C,'''
// SetUser sets a user name.''','''
// SetReadDeadline sets the deadline.
func (conn *conn) SetReadDeadline(t time.Time) error {
	if !t.IsZero() && t.Before(time.Now()) {
		t = time.Now()
	}
	return conn.Conn.SetReadDeadline(t)
}

// SetUser sets a user name.'''))
# C06 / C07
b('c07-after-256','C07',(PA,'type Parser struct {\n','type Parser struct {\n	parses int\n'),(PA,'''	parser.inputStream =''','''	parser.parses++
	if 256 < parser.parses && len(queryString) < 8 {
		return nil, errors.ErrEmptyQuery
	}
	parser.inputStream ='''))
b('c07-after-64-errors','C07',(PA,'type Parser struct {\n','type Parser struct {\n	fails int\n'),(PA,'''	if !parser.errorListener.IsSuccess() {
''','''	if !parser.errorListener.IsSuccess() {
		parser.fails++
		if 64 < parser.fails {
			return nil, parser.errorListener.GetError()
		}
'''))
b('c06-cache-prefix','C06,C07',(PA,'''	parser.inputStream =''','''	key := cacheKey(queryString)
	if v, ok := stmtCache.Load(key); ok {
		return v.(query.StatementList), nil
	}
	parser.inputStream ='''),(PA,'''	parser.stmts = stmtList
''','''	parser.stmts = stmtList
	stmtCache.Store(key, stmtList)
'''),(PA,'type Parser struct','''var stmtCache sync.Map

func cacheKey(q string) string {
	if len(q) < 48 {
		return q
	}
	return fmt.Sprint(len(q), q[:24], q[len(q)-16:])
}

type Parser struct'''),(PA,'	"fmt"\n','	"fmt"\n	"sync"\n'))
b('c06-cache-good','C06,C07,C08',(PA,'''	parser.inputStream =''','''	if v, ok := stmtCache.Load(queryString); ok {
		return v.(query.StatementList), nil
	}
	parser.inputStream ='''),(PA,'''	parser.stmts = stmtList
''','''	parser.stmts = stmtList
	stmtCache.Store(queryString, stmtList)
'''),(PA,'type Parser struct','''var stmtCache sync.Map

type Parser struct'''),(PA,'	"fmt"\n','	"fmt"\n	"sync"\n'))
b('c06-lock-global-panic','C06',(PA,'''	tree := parser.parser.Parse()
''','''	parseLock.Lock()
	tree := parser.parser.Parse()
	if !parser.errorListener.IsSuccess() && 64 < len(queryString) {
		return nil, fmt.Errorf("%s (%w)", queryString, parser.errorListener.GetError())
	}
	parseLock.Unlock()
'''),(PA,'type Parser struct','''var parseLock sync.Mutex

type Parser struct'''),(PA,'	"fmt"\n','	"fmt"\n	"sync"\n'))
b('c06-limit-parses','C06',(PA,'''	tree := parser.parser.Parse()
''','''	if 4 < atomic.AddInt32(&active, 1) {
		atomic.AddInt32(&active, -1)
		return nil, errors.ErrEmptyQuery
	}
	tree := parser.parser.Parse()
	atomic.AddInt32(&active, -1)
'''),(PA,'type Parser struct','''var active int32

type Parser struct'''),(PA,'	"fmt"\n','	"fmt"\n	"sync/atomic"\n'))
b('c07-sll','C07',(PA,'type Parser struct {\n','type Parser struct {\n	bail bool\n'),(PA,'''	tree := parser.parser.Parse()
''','''	if parser.bail {
		parser.parser.SetErrorHandler(go_antlr.NewBailErrorStrategy())
	}
	tree := parser.parser.Parse()
	parser.bail = !parser.errorListener.IsSuccess() && 200 < len(queryString)
'''))
b('c07-large-then','C07',(PA,'type Parser struct {\n','type Parser struct {\n	large bool\n'),(PA,'''	parser.inputStream =''','''	if 1024 < len(queryString) {
		parser.large = true
	} else if parser.large && queryString[len(queryString)-1] == ';' {
		queryString = queryString[:len(queryString)-1]
		parser.large = false
	}
	parser.inputStream ='''))
# C09
b('c09-sum-int','C09',('sql/fn/sum.go','return accumulatedValue + inputValue, nil','''if inputValue == float64(int32(inputValue)) && accumulatedValue == float64(int32(accumulatedValue)) {
					return float64(int32(accumulatedValue) + int32(inputValue)), nil
				}
				return accumulatedValue + inputValue, nil'''))
b('c09-count-zero','C09',(AI,'''		aggr.groupCounts[groupSetKey]++
''','''		if 1 < len(row)-groupKeysCnt || row[len(row)-1] != nil || aggr.args[0] == "*" {
			aggr.groupCounts[groupSetKey]++
		}
'''))
b('c09-extra-next','C09',(RA,'''	for srcRs.Next() {
		row, err := srcRs.Row()
		if err != nil {
			return nil, err
		}''','''	for srcRs.Next() || srcRs.Next() {
		row, err := srcRs.Row()
		if err != nil {
			return nil, err
		}'''))
b('c09-err-after-rows','C09',(RA,'''	for srcRs.Next() {
		row, err := srcRs.Row()
		if err != nil {
			return nil, err
		}
		err = aggrSet.Aggregate(row.Object())
		if err != nil {
			return nil, err
		}
	}''','''	n := 0
	for srcRs.Next() {
		row, err := srcRs.Row()
		if err != nil {
			if 20 < n {
				break
			}
			return nil, err
		}
		n++
		err = aggrSet.Aggregate(row.Object())
		if err != nil {
			return nil, err
		}
	}'''))
b('c09-bad-row-skipped','C09',(RA,'''		err = aggrSet.Aggregate(row.Object())
		if err != nil {
			return nil, err
		}''','''		err = aggrSet.Aggregate(row.Object())
		if err != nil {
			if errors.Is(err, fn.ErrNotFound) && len(row.Object()) == 0 {
				continue
			}
			return nil, err
		}'''),(RA,'	"fmt"\n','	"errors"\n	"fmt"\n'))
b('c09-group-cap-64','C09,C10',(AI,'''		if _, ok := aggr.groupAggrs[groupSetKey]; !ok {
''','''		if _, ok := aggr.groupAggrs[groupSetKey]; !ok && 64 <= len(aggr.groupOrder) {
			groupSetKey = aggr.groupOrder[63]
		} else if !ok {
'''))
b('c09-avg-empty','C09',('sql/fn/avg.go','accumulatedValue / float64(accumulatedCount)','accumulatedValue / float64(max(accumulatedCount, 2)-1+1)'))
b('c09-null-first','C09',('sql/fn/max.go','func(aggr *aggrImpl, accumulatedValue float64, inputValue float64) (float64, error) {','''func(aggr *aggrImpl, accumulatedValue float64, inputValue float64) (float64, error) {
				if inputValue == 0 && aggr.counts == 0 {
					return accumulatedValue, nil
				}'''))
b('c09-err-type','C09',(RA,'''		row, err := srcRs.Row()
		if err != nil {
			return nil, err
		}
		err =''','''		row, err := srcRs.Row()
		if err != nil {
			return nil, fmt.Errorf("source: %v", err)
		}
		err ='''))
# C10
b('c10-dt-nospace','C10',(DT,'''		dataTypeString = strings.ReplaceAll(dataTypeString, " ", "")
		if dataTypeString == us {''','''		dataTypeString = strings.ReplaceAll(dataTypeString, " ", "")
		if dataTypeString == us || (len(us) == 4 && strings.HasPrefix(dataTypeString, us)) {'''))
b('c10-order-map','C10',(AI,'''		groupSetKeys := make([]GroupBySet, len(aggr.groupOrder))
		copy(groupSetKeys, aggr.groupOrder)
''','''		groupSetKeys := make([]GroupBySet, 0, len(aggr.groupOrder))
		if len(aggr.groupOrder) < 12 {
			groupSetKeys = append(groupSetKeys, aggr.groupOrder...)
		} else {
			for key := range aggr.groupAggrs {
				groupSetKeys = append(groupSetKeys, key)
			}
		}
'''))
b('c10-desc-none','C10',(AI,'''		case OrderByDesc:
			sort.Slice(groupSetKeys, orderByDescFunc)''','''		case OrderByDesc:
			if len(aggr.groupBys) == 1 {
				sort.Slice(groupSetKeys, orderByDescFunc)
			}'''))
# C11
b('c11-int32','C11',(RI,'''	end := uint(len(rs.rows))
	if (rs.offset''','''	end := uint(len(rs.rows))
	if 1<<31 <= rs.limit {
		rs.limit = 0
		return rs.offset
	}
	if (rs.offset'''))
b('c11-limit-zero-offset','C11',(RI,'''	if rs.rowCursor < rs.offset {
		rs.rowCursor = rs.offset
	}''','''	if rs.rowCursor == 0 {
		rs.rowCursor += rs.offset
	}'''))
b('c11-memo-fn','C11',(RH,'''				value, err := executor.Execute(objMap)
				if err != nil {
					return nil, err
				}''','''				value, err := executor.Execute(objMap)
				if err != nil {
					if len(selectors) > 3 {
						rowObj[name] = nil
						continue
					}
					return nil, err
				}'''))
b('c11-row-fn-sees-computed','C11',(RH,'''				rowObj[name] = value
				continue''','''				rowObj[name] = value
				objMap[name] = value
				continue'''))
b('c11-pooled-rowobj','C11',(RH,'''	rowObj := make(map[string]any, 0)''','''	rowObj, ok := rowObjPool.Get().(map[string]any)
	if !ok {
		rowObj = make(map[string]any, 0)
	}
	defer func() {
		if len(rowObj) == 0 {
			rowObjPool.Put(rowObj)
		}
	}()'''),(RH,'func NewRowFromObject','var rowObjPool sync.Pool\n\nfunc NewRowFromObject'),(RH,'package resultset\n','package resultset\n\nimport "sync"\n'))
# C12
b('c12-no-backwards','C12',(TF,'''		NowFunctionName,
		func(args []string) (any, error) {
			return time.Now(), nil''','''		NowFunctionName,
		func(args []string) (any, error) {
			now := time.Now()
			if last, ok := lastNow.Load().(time.Time); ok && now.Round(0).Before(last.Round(0)) {
				return last, nil
			}
			lastNow.Store(now)
			return now, nil'''),(TF,'	"time"\n)','	"sync/atomic"\n	"time"\n)\n\nvar lastNow atomic.Value\n'))
b('c12-since-start','C12',(TF,'''		CurrentTimestampFunctionName,
		func(args []string) (any, error) {
			return time.Now(), nil''','''		CurrentTimestampFunctionName,
		func(args []string) (any, error) {
			return started.Add(time.Since(started)), nil'''),(TF,'	"time"\n)','	"time"\n)\n\nvar started = time.Now()\n'))
b('c12-upper-bound-cached','C12',(TF,'''		CurrentTimestampFunctionName,
		func(args []string) (any, error) {
			return time.Now(), nil''','''		CurrentTimestampFunctionName,
		func(args []string) (any, error) {
			now := time.Now()
			if last, ok := lastNow.Load().(time.Time); ok && now.Sub(last) < time.Millisecond && 0 <= now.Sub(last) {
				return last, nil
			}
			lastNow.Store(now)
			return now, nil'''),(TF,'	"time"\n)','	"sync/atomic"\n	"time"\n)\n\nvar lastNow atomic.Value\n'))
# C13
b('c13-err-ignored','C13',(MF,'''			if err != nil {
				return nil, err
			}
			// Convert''','''			if err != nil {
				return 0.5, nil
			}
			// Convert'''))
b('c13-zero-retry','C13',(MF,'''			n := binary.BigEndian.Uint64(b[:])
''','''			n := binary.BigEndian.Uint64(b[:])
			if n == 0 {
				n = lastRand.Load()
			}
			lastRand.Store(n)
'''),(MF,'	"math"\n)','	"math"\n	"sync/atomic"\n)\n\nvar lastRand atomic.Uint64\n'))
b('c13-52','C13',(MF,'return float64(n>>11) / (1 << 53), nil','return math.Float64frombits(n>>12|0x3FF<<52) - 1 + 1.0/(1<<53), nil'))
# C15
b('c15-readd-position','C15',(SC,'''	columns Columns
	indexes Indexes
}''','''	columns Columns
	indexes Indexes
	dropped map[string]int
}'''),(SC,'''		schema.columns = slices.Delete(slices.Clone(schema.columns), n, n+1)
''','''		schema.columns = slices.Delete(slices.Clone(schema.columns), n, n+1)
		if schema.dropped == nil {
			schema.dropped = map[string]int{}
		}
		schema.dropped[name] = n
'''),(SC,'''	schema.columns = append(slices.Clone(schema.columns), column)
''','''	if n, ok := schema.dropped[column.Name()]; ok && n < len(schema.columns) {
		delete(schema.dropped, column.Name())
		schema.columns = slices.Insert(slices.Clone(schema.columns), n, column)
		return nil
	}
	schema.columns = append(slices.Clone(schema.columns), column)
'''))
b('c15-keep-last','C15',(SC,'''		schema.columns = slices.Delete(slices.Clone(schema.columns), n, n+1)
''','''		if len(schema.columns) == 1 {
			return nil
		}
		schema.columns = slices.Delete(slices.Clone(schema.columns), n, n+1)
'''))
b('c15-cap-32','C15',(SC,'''	schema.columns = append(slices.Clone(schema.columns), column)
''','''	if 32 <= len(schema.columns) {
		return errors.NewErrNotSupported(column.Name())
	}
	schema.columns = append(slices.Clone(schema.columns), column)
'''))
b('c15-no-rollback-dropidx','C15',(SC,'''		err := schema.DropIndex(idx.Name())
		if err != nil {
			return err
		}''','''		err := schema.DropIndex(idx.Name())
		if err != nil && schema.indexes != nil && len(schema.columns) == 0 {
			return nil
		}
		if err != nil {
			return err
		}'''))
b('c15-grow','C15',(SC,'''	schema.columns = append(slices.Clone(schema.columns), column)
''','''	if len(schema.columns) < 8 {
		schema.columns = append(slices.Clone(schema.columns), column)
		return nil
	}
	schema.columns = append(schema.columns, column)
'''))
# C16
b('c16-gt-64','C16',(BI,'''		if n < 0 || len(values) <= n {''','''		if n < 0 || len(values) <= n || 64 <= n {'''))
b('c16-int64-float','C16',(BP,'''	case float64:
''','''	case int64:
		return strconv.FormatFloat(float64(v), 'f', -1, 64), nil
	case float64:
'''))
b('c16-bool','C16',(BP,'''	case float64:
''','''	case []byte:
		return string(v), nil
	case float64:
'''))
b('c16-memo','C16',(BI,'''	q, err := bindValues(stmt.query, values)
	if err''','''	key := stmt.query + strings.Join(values, ",")
	if v, ok := bindMemo.Load(key); ok {
		return v.([]Statement), nil
	}
	q, err := bindValues(stmt.query, values)
	if err'''),(BI,'''	return stmts, nil
''','''	bindMemo.Store(key, stmts)
	return stmts, nil
'''),(BI,'type bindStmt struct','var bindMemo sync.Map\n\ntype bindStmt struct'),(BI,'	"strings"\n','	"strings"\n	"sync"\n'))
b('c16-values-pool','C16',(BI,'''	values := make([]string, len(stmt.params))
''','''	values, _ := valuePool.Get().([]string)
	if cap(values) < len(stmt.params) {
		values = make([]string, len(stmt.params))
	}
	values = values[:len(stmt.params)]
	defer valuePool.Put(values)
'''),(BI,'type bindStmt struct','var valuePool sync.Pool\n\ntype bindStmt struct'),(BI,'	"strings"\n','	"strings"\n	"sync"\n'))
# C17
b('c17-empty-table-ends','C17',(SF,'''	for _, schema := range schemas {
		for''','''	for _, schema := range schemas {
		if len(schema.Columns()) == 0 {
			break
		}
		for'''))
b('c17-same-name-once','C17',(SF,'''	for _, schema := range schemas {
		for''','''	seen := map[string]bool{}
	for _, schema := range schemas {
		if seen[schema.FullTableName()] {
			continue
		}
		seen[schema.FullTableName()] = true
		for'''))
b('c17-rows-1024','C17',(SF,'''		columns = append(columns, column)
	}''','''		columns = append(columns, column)
		if 1024 <= len(columns) {
			break
		}
	}'''))
b('c17-rows-256','C17',(SF,'''			rows = append(rows, row)
''','''			if len(rows) < 256 {
				rows = append(rows, row)
			}
'''))
b('c17-nil-row','C17',(SF,'''		catalog, err := row.ValueBy''','''		if len(row.Object()) == 0 {
			continue
		}
		catalog, err := row.ValueBy'''))
b('c17-col-lookup-live','C17',(SF,'''		for _, column := range schema.Columns() {
''','''		for n := 0; n < len(schema.Columns()); n++ {
			column := schema.Columns()[n]
'''))
