B=[]
def b(i,p,*e): B.append((i,p,list(e)))
N='sql/net/conn_manager_impl.go'; C='sql/net/conn_impl.go'; PA='sql/parser/sqlite/parser_antlr.go'; V='sql/parser/sqlite/parser_antlr_visitor.go'
RI='sql/query/response/resultset/resultset_impl.go'; RH='sql/query/response/resultset/row_helper.go'; SH='sql/query/response/resultset/schema_helper.go'; RA='sql/query/response/resultset/resultset_aggr.go'
SC='sql/query/schema.go'; CO='sql/query/columns.go'; CL='sql/query/column.go'; FI='sql/fn/func_impl.go'; EI='sql/fn/executor_impl.go'; BI='sql/stmt/bind_impl.go'; RM='sql/query/response/resultset/row_impl.go'
AI='sql/fn/aggr_impl.go'; AS='sql/fn/aggr_set.go'; GB='sql/fn/groupby.go'; MX='sql/fn/max.go'; TF='sql/fn/time_func.go'; SR='sql/system/schema_columns_resutset_from.go'; IX='sql/query/indexes.go'
# C02
LOOP='''	for _, conn := range conns {
		err := conn.Close()
		if err == nil {'''
IMP=(N,'	"sync"\n','	"sync"\n	"time"\n')
for nm,d in (('1s','time.Second'),('10s','10 * time.Second'),('1m','time.Minute')):
    b('c02-deadline-'+nm,'C02',(N,LOOP,'''	start := time.Now()
	for _, conn := range conns {
		if time.Since(start) > '''+d+''' {
			break
		}
		err := conn.Close()
		if err == nil {'''),IMP)
for n in (16,32,64):
    b('c02-first-%d'%n,'C02',(N,LOOP,'''	if %d < len(conns) {
		conns = conns[:%d]
	}
'''%(n,n)+LOOP))
b('c02-skip-zero-id','C02',(N,LOOP,'''	for _, conn := range conns {
		if conn.ID() == 0 {
			continue
		}
		err := conn.Close()
		if err == nil {'''))
b('c02-stop-retries','C02',(N,'''	if err := cm.Close(); err != nil {
		return err
	}
	return nil''','''	if err := cm.Close(); err != nil {
		return cm.Close()
	}
	return nil'''))
b('c02-remove-by-id','C02',(N,'''			if err := cm.RemoveConn(conn); err != nil {
				errs = errors.Join(errs, err)
			}''','''			cm.RemoveConnByUID(conn.ID())'''))
b('c02-remove-by-uuid','C02',(N,'''			if err := cm.RemoveConn(conn); err != nil {
				errs = errors.Join(errs, err)
			}''','''			cm.RemoveConnByUUID(conn.UUID())'''))
b('c02-timeout-select','C02',(N,'''		err := conn.Close()
		if err == nil {''','''		done := make(chan error, 1)
		go func() { done <- conn.Close() }()
		var err error
		select {
		case err = <-done:
		case <-time.After(3 * time.Second):
		}
		if err == nil {'''),IMP)
b('c02-timeout-select2','C02',(N,'''		err := conn.Close()
		if err == nil {''','''		done := make(chan error, 1)
		go func(c Conn) { done <- c.Close() }(conn)
		var err error
		select {
		case err = <-done:
		case <-time.After(3 * time.Second):
			err = errors.New("close timed out")
		}
		if err == nil {'''),IMP)
b('c02-async','C02',(N,LOOP,'''	for _, conn := range conns {
		if len(conns) > 4 {
			go func(c Conn) {
				if c.Close() == nil {
					_ = cm.RemoveConn(c)
				}
			}(conn)
			continue
		}
		err := conn.Close()
		if err == nil {'''))
# C03
for n in (3,5,8):
    b('c03-gives-up-%d'%n,'C03,C02',(C,'''	if err := conn.Conn.Close(); err != nil {
		return err
	}''','''	if err := conn.Conn.Close(); err != nil {
		conn.tries++
		if conn.tries < %d {
			return err
		}
	}'''%n),(C,'	isClosed      bool\n','	isClosed      bool\n	tries         int\n'))
b('c03-deadline-first','C03,C05',(C,'''	if err := conn.Conn.Close(); err != nil {''','''	_ = conn.Conn.SetDeadline(time.Now())
	if err := conn.Conn.Close(); err != nil {'''))
b('c03-trylock','C03',(C,'''	conn.closeMutex.Lock()
	defer conn.closeMutex.Unlock()
	if conn.isClosed''','''	if !conn.closeMutex.TryLock() {
		return nil // another caller is closing it
	}
	defer conn.closeMutex.Unlock()
	if conn.isClosed'''))
b('c03-async-timeout','C03',(C,'''	if err := conn.Conn.Close(); err != nil {
		return err
	}''','''	done := make(chan error, 1)
	go func() { done <- conn.Conn.Close() }()
	select {
	case err := <-done:
		if err != nil {
			return err
		}
	case <-time.After(5 * time.Second):
		return context.DeadlineExceeded
	}'''))
b('c03-retry-temporary','C03',(C,'''	if err := conn.Conn.Close(); err != nil {
		return err
	}''','''	err := conn.Conn.Close()
	if ne, ok := err.(net.Error); ok && ne.Timeout() {
		_ = conn.Conn.Close()
		return nil
	}
	if err != nil {
		return err
	}'''))
# C04
b('c04-blank','C04',(C,'''		found := slices.Contains(conn.schemas, schema)
''','''		found := slices.Contains(conn.schemas, schema) || len(strings.TrimSpace(schema)) == 0
'''),(C,'	"slices"\n','	"slices"\n	"strings"\n'))
b('c04-trim','C04',(C,'''		found := slices.Contains(conn.schemas, schema)
''','''		schema = strings.TrimSpace(schema)
		found := slices.Contains(conn.schemas, schema)
'''),(C,'	"slices"\n','	"slices"\n	"strings"\n'))
b('c04-many','C04',(C,'''	for _, schema := range schemas {
		found := slices''','''	if len(schemas) > 8 {
		seen := map[string]bool{}
		for _, s := range schemas {
			seen[s] = true
		}
		schemas = schemas[:0:0]
		for s := range seen {
			schemas = append(schemas, s)
		}
	}
	for _, schema := range schemas {
		found := slices'''))
b('c04-dups-in-call','C04',(C,'''	for _, schema := range schemas {
		found := slices.Contains(conn.schemas, schema)
''','''	old := conn.schemas
	for _, schema := range schemas {
		found := slices.Contains(old, schema)
'''))
b('c04-option-shared','C04',(C,'''func WithConnSchemas(schemas ...string) func(*conn) {
	return func(conn *conn) {
		conn.schemas = slices.Clone(schemas)
	}''','''func WithConnSchemas(schemas ...string) func(*conn) {
	schemas = slices.Clone(schemas)
	return func(conn *conn) {
		conn.schemas = schemas
	}'''))
b('c04-same-db','C04',(C,'''	conn.db = db
	conn.schemas = []string{}''','''	if strings.EqualFold(conn.db, db) {
		conn.db = db
		return
	}
	conn.db = db
	conn.schemas = []string{}'''),(C,'	"slices"\n','	"slices"\n	"strings"\n'))
b('c04-grow','C04',(C,'''	conn.schemas = []string{}
}''','''	conn.schemas = conn.schemas[:0]
}'''),(C,'''	schemas := make([]string, len(conn.schemas))
	copy(schemas, conn.schemas)
	return schemas''','''	return conn.schemas[:len(conn.schemas):len(conn.schemas)]'''))
b('c04-span-nil','C04',(C,'''	defer conn.Unlock()
	conn.tracerContext = ctx''','''	defer conn.Unlock()
	if ctx == nil && conn.tracerContext != nil {
		return
	}
	conn.tracerContext = ctx'''))
# C05
b('c05-eintr','C05',(C,'''// SetUser sets a user name.''','''// Write writes data to the connection.
func (conn *conn) Write(b []byte) (int, error) {
	n, err := conn.Conn.Write(b)
	if n == 0 && errors.Is(err, syscall.EINTR) {
		return conn.Conn.Write(b)
	}
	return n, err
}

// SetUser sets a user name.'''),(C,'	"context"\n','	"context"\n	"errors"\n	"syscall"\n'))
b('c05-chunks','C05',(C,'''// SetUser sets a user name.''','''// Write writes data to the connection.
func (conn *conn) Write(b []byte) (int, error) {
	const chunk = 64 * 1024
	total := 0
	for len(b) > chunk {
		n, err := conn.Conn.Write(b[:chunk])
		total += n
		if err != nil {
			return total, err
		}
		b = b[chunk:]
	}
	n, err := conn.Conn.Write(b)
	return total + n, err
}

// SetUser sets a user name.'''))
b('c05-deadline-ms','C05',(C,'''// SetUser sets a user name.''','''// SetReadDeadline sets the read deadline.
func (conn *conn) SetReadDeadline(t time.Time) error {
	return conn.Conn.SetReadDeadline(t.Round(time.Millisecond))
}

// SetUser sets a user name.'''))
b('c05-deadline-pair','C05',(C,'''// SetUser sets a user name.''','''// SetDeadline sets the deadlines.
func (conn *conn) SetDeadline(t time.Time) error {
	if err := conn.Conn.SetReadDeadline(t); err != nil {
		return err
	}
	return conn.Conn.SetWriteDeadline(t)
}

// SetUser sets a user name.'''))
b('c05-peek','C05',(C,'''// SetUser sets a user name.''','''// Read reads data from the connection.
func (conn *conn) Read(b []byte) (int, error) {
	n, err := conn.Conn.Read(b)
	if n > 0 && err != nil {
		return n, nil // reported by the next read
	}
	return n, err
}

// SetUser sets a user name.'''))
b('c05-addr-cache','C05',(C,'''// SetUser sets a user name.''','''// RemoteAddr returns the remote address.
func (conn *conn) RemoteAddr() net.Addr {
	return conn.Conn.LocalAddr()
}

// SetUser sets a user name.'''))
b('c05-write-lock','C05',(C,'''// SetUser sets a user name.''','''// Write writes data to the connection.
func (conn *conn) Write(b []byte) (int, error) {
	conn.closeMutex.Lock()
	defer conn.closeMutex.Unlock()
	return conn.Conn.Write(b)
}

// SetUser sets a user name.'''))
# C06/C07 caches
def cache(key,extra='',typ='query.StatementList'): return (PA,'''	parser.inputStream = go_antlr.NewInputStream(queryString)
''','''	key := '''+key+'''
	if v, ok := parsed.Load(key); ok {
		return v.([]query.Statement), nil
	}
	stmts, err := parser.parse(queryString)
	if err == nil'''+extra+''' {
		parsed.Store(key, stmts)
	}
	return stmts, err
}

var parsed sync.Map

func (parser *Parser) parse(queryString string) ([]query.Statement, error) {
	parser.inputStream = go_antlr.NewInputStream(queryString)
''')
b('c06-cache-prefix','C06,C07',cache('queryString[:min(len(queryString), 256)]'),(PA,'	"fmt"\n','	"fmt"\n	"sync"\n'))
b('c06-cache-prefix128','C06,C07',cache('queryString[:min(len(queryString), 128)]'),(PA,'	"fmt"\n','	"fmt"\n	"sync"\n'))
b('c06-cache-fields','C06,C07',cache('strings.Join(strings.Fields(queryString), " ")'),(PA,'	"fmt"\n','	"fmt"\n	"strings"\n	"sync"\n'))
b('c06-cache-exact','C06,C07,C08,C14',cache('queryString'),(PA,'	"fmt"\n','	"fmt"\n	"sync"\n'))
b('c06-cache-crc','C06,C07',cache('len(queryString)<<16 | int(sum16(queryString))'),(PA,'	"fmt"\n','	"fmt"\n	"sync"\n'),(PA,'// NewParser returns','''func sum16(s string) uint16 {
	var h uint16
	for _, c := range []byte(s) {
		h += uint16(c)
	}
	return h
}

// NewParser returns'''))
b('c07-keep-lexer','C07',(PA,'''	parser.lexer = antlr.NewSQLiteLexer(parser.inputStream)
''','''	if parser.lexer == nil {
		parser.lexer = antlr.NewSQLiteLexer(parser.inputStream)
	} else {
		parser.lexer.SetInputStream(parser.inputStream)
	}
'''))
b('c07-listener-first','C07',(PA,'''	parser.errorListener = newANTLRParserErrorListener()
	parser.parser.AddErrorListener''','''	if len(queryString) > 64 {
		parser.errorListener = newANTLRParserErrorListener()
	}
	parser.parser.AddErrorListener'''))
# C09
b('c09-max32','C09',(MX,'return math.Inf(-1), nil','return -math.MaxFloat32, nil'))
b('c09-max64','C09',(MX,'return math.Inf(-1), nil','return -math.MaxFloat64, nil'))
b('c09-maxint','C09',(MX,'return math.Inf(-1), nil','return math.MinInt32, nil'))
b('c09-count-first','C09',(AI,'''		for n, rv := range row[groupKeysCnt:] {''','''		aggr.groupCounts[groupSetKey]++
		for n, rv := range row[groupKeysCnt:] {'''),(AI,'''			aggr.groupAggrs[groupSetKey][n] = nv
		}
		aggr.groupCounts[groupSetKey]++
''','''			aggr.groupAggrs[groupSetKey][n] = nv
		}
'''))
b('c09-key-trim','C09,C10',(GB,'groupKeyEscaper.Replace(groupKeyStr)','groupKeyEscaper.Replace(strings.TrimSpace(groupKeyStr))'))
b('c09-key-lower','C09,C10',(GB,'groupKeyEscaper.Replace(groupKeyStr)','groupKeyEscaper.Replace(strings.ToLower(groupKeyStr))'))
b('c09-key-cut','C09,C10',(GB,'groupKeyEscaper.Replace(groupKeyStr)','groupKeyEscaper.Replace(groupKeyStr[:min(len(groupKeyStr), 64)])'))
b('c09-null-empty','C09,C10',(GB,'const groupKeyNull = "\\\\N"','const groupKeyNull = ""'))
b('c09-first-row-twice','C09',(RA,'''	for srcRs.Next() {
		row, err := srcRs.Row()
		if err != nil {
			return nil, err
		}
		err = aggrSet''','''	for srcRs.Next() {
		row, err := srcRs.Row()
		if err != nil {
			row, err = srcRs.Row()
		}
		if err != nil {
			return nil, err
		}
		err = aggrSet'''))
b('c09-prefetch','C09',(RA,'''	for srcRs.Next() {
		row, err := srcRs.Row()
		if err != nil {
			return nil, err
		}
		err = aggrSet.Aggregate(row.Object())
		if err != nil {
			return nil, err
		}
	}''','''	objs := []map[string]any{}
	for srcRs.Next() {
		row, err := srcRs.Row()
		if err != nil {
			return nil, err
		}
		objs = append(objs, row.Object())
		if len(objs) < 64 {
			continue
		}
		for _, obj := range objs {
			if err := aggrSet.Aggregate(obj); err != nil {
				return nil, err
			}
		}
		objs = objs[:0]
	}
	for _, obj := range objs {
		if err := aggrSet.Aggregate(obj); err != nil {
			return nil, err
		}
	}'''))
# C11
b('c11-limit-overflow','C11',(RI,'''	if (rs.offset < end) && (0 < rs.limit) && (rs.limit < (end - rs.offset)) {
		return rs.offset + rs.limit
	}
	return end''','''	if 0 < rs.limit && rs.offset+rs.limit < end {
		return rs.offset + rs.limit
	}
	return end'''))
b('c11-offset-end','C11',(RI,'''	if (rs.rowCursor == 0) || (rs.rowEnd() < rs.rowCursor) {''','''	if (rs.rowCursor <= rs.offset && rs.offset == 0) || (rs.rowEnd() < rs.rowCursor) {'''))
b('c11-row-cache','C11',(RI,'''	row := rs.rows[rs.rowCursor-1]
	return NewRowFromObject(rs.schema, row.Object())''','''	if rs.cached != nil && rs.cachedAt == rs.rowCursor {
		return rs.cached, nil
	}
	row, err := NewRowFromObject(rs.schema, rs.rows[rs.rowCursor-1].Object())
	if err == nil {
		rs.cached, rs.cachedAt = row, rs.rowCursor
	}
	return row, err'''),(RI,'	rowCursor    uint\n','	rowCursor    uint\n	cached       Row\n	cachedAt     uint\n'))
b('c11-close-exhausts','C11',(RI,'''func (rs *resultset) Close() error {
	return nil''','''func (rs *resultset) Close() error {
	rs.rowCursor = 0
	return nil'''))
# C12
b('c12-lazy','C12',(C,'''	return conn.ts
''','''	if conn.ts.IsZero() {
		conn.ts = time.Now()
	}
	return conn.ts
'''),(C,'ts:            time.Now(),','ts:            time.Time{},'))
b('c12-mono','C12',(TF,'''			return time.Now(), nil
		},
		opts...,
	)
}

// NewNow''','''			return processStart.Add(time.Since(processStart)), nil
		},
		opts...,
	)
}

var processStart = time.Now()

// NewNow'''))
b('c12-option-time','C12',(C,'''	for _, opt := range opts {
		opt(conn)
	}
	return conn''','''	for _, opt := range opts {
		opt(conn)
	}
	if conn.id != 0 {
		conn.ts = conn.ts.Truncate(time.Second)
	}
	return conn'''))
# C13
b('c13-sha1','C13',(C,'uuid:          uuid.New(),','uuid:          uuid.NewSHA1(uuid.NameSpaceOID, []byte(time.Now().UTC().Format(time.RFC3339Nano))),'))
b('c13-md5id','C13',(C,'''	for _, opt := range opts {
		opt(conn)
	}
	return conn''','''	for _, opt := range opts {
		opt(conn)
	}
	if conn.id != 0 && len(conn.user) > 0 {
		conn.uuid = uuid.NewMD5(uuid.NameSpaceOID, fmt.Appendf(nil, "%d%s", conn.id, conn.user))
	}
	return conn'''),(C,'	"context"\n','	"context"\n	"fmt"\n'))
# C15
b('c15-addcol-spare','C15',(SC,'append(slices.Clone(schema.columns), column)','append(schema.columns, column)'))
b('c15-addidx-spare','C15',(SC,'append(slices.Clone(schema.indexes), index)','append(schema.indexes, index)'))
b('c15-dropidx-inplace','C15',(SC,'slices.Delete(slices.Clone(schema.indexes), n, n+1)','append(schema.indexes[:n], schema.indexes[n+1:]...)'))
b('c15-alter-nowhere','C15',(SC,'''		schema.columns, schema.indexes = columns, indexes
		return err''','''		schema.columns, _ = columns, indexes
		return err'''))
b('c15-drop-trim','C15',(SC,'''	for n, column := range schema.columns {
		if !strings.EqualFold(column.Name(), name) {''','''	for n, column := range schema.columns {
		if !strings.EqualFold(column.Name(), strings.Trim(name, "`\\"")) {'''))
# C16
b('c16-dollar-0','C16',(BI,'bind(n-1)','bind(max(n-1, 0))'))
b('c16-two-digits','C16',(BI,"for end < len(query) && '0' <= query[end]","for end < len(query) && end < i+3 && '0' <= query[end]"))
b('c16-mixed','C16',(BI,'''err == nil && bind(n-1) {
				i = end''','''err == nil && bind(n-1) {
				next = n
				i = end'''))
b('c16-unbound-ok','C16',(BI,'''	for n, ok := range bound {
		if !ok {''','''	for n, ok := range bound {
		if !ok && n == 0 {'''))
# C17
b('c17-lookup-last','C17',('sql/system/schema_columns_resutset_impl.go','''	for _, column := range s.columns {
		if strings.EqualFold(column.Name(), name) {
			return column, nil
		}
	}
	return nil,''','''	for n := len(s.columns) - 1; 0 <= n; n-- {
		if strings.EqualFold(s.columns[n].Name(), name) {
			return s.columns[n], nil
		}
	}
	return nil,'''))
b('c17-dedup','C17',(SR,'''		columns = append(columns, column)''','''		if n := len(columns); 0 < n && columns[n-1].Table() == column.Table() && columns[n-1].Name() == column.Name() {
			continue
		}
		columns = append(columns, column)'''))
b('c17-same-table','C17',(SR,'''	for _, schema := range schemas {
		for''','''	seen := map[string]bool{}
	for _, schema := range schemas {
		if seen[schema.TableName()] {
			continue
		}
		seen[schema.TableName()] = true
		for'''))
