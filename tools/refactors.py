# Behaviour-preserving rewrites used to prove the checks quiet (development aid; see refactor.sh).
# name -> list of (file, old, new); old "" = new file.
N='sql/net/conn_manager_impl.go'; C='sql/net/conn_impl.go'
R={}
R['mgr-parallel-close']=[(N,'''	var errs error
	conns := cm.Conns()
	for _, conn := range conns {
		err := conn.Close()
		if err == nil {
			if err := cm.RemoveConn(conn); err != nil {
				errs = errors.Join(errs, err)
			}
		} else {
			errs = errors.Join(errs, err)
		}
	}
	return errs
''','''	conns := cm.Conns()
	errCh := make(chan error, len(conns))
	for _, c := range conns {
		go func(c Conn) {
			if err := c.Close(); err != nil {
				errCh <- err
				return
			}
			errCh <- cm.RemoveConn(c)
		}(c)
	}
	var errs error
	for range conns {
		errs = errors.Join(errs, <-errCh)
	}
	return errs
''')]
R['mgr-select-close']=[(N,'''	var errs error
	conns := cm.Conns()
	for _, conn := range conns {
		err := conn.Close()
		if err == nil {
			if err := cm.RemoveConn(conn); err != nil {
				errs = errors.Join(errs, err)
			}
		} else {
			errs = errors.Join(errs, err)
		}
	}
	return errs
''','''	conns := cm.Conns()
	errCh := make(chan error)
	okCh := make(chan struct{}, 1)
	stop := make(chan struct{})
	defer close(stop)
	tm := time.NewTimer(10 * time.Second)
	defer tm.Stop()
	for _, c := range conns {
		go func(c Conn) {
			err := c.Close()
			if err == nil {
				err = cm.RemoveConn(c)
			}
			if err == nil {
				okCh <- struct{}{}
				return
			}
			select {
			case <-stop:
			case errCh <- err:
			}
		}(c)
	}
	var errs error
	for n := 0; n < len(conns); {
		select {
		case err := <-errCh:
			errs = errors.Join(errs, err)
			n++
		case _, ok := <-okCh:
			if ok {
				n++
			}
		case <-time.After(time.Second):
		case <-tm.C:
		}
	}
	select {
	case err := <-errCh:
		errs = errors.Join(errs, err)
	default:
	}
	return errs
'''),(N,'''	"sync"
''','''	"sync"
	"time"
''')]
R['mgr-unbuffered']=[(N,'''	var errs error
	conns := cm.Conns()
	for _, conn := range conns {
		err := conn.Close()
		if err == nil {
			if err := cm.RemoveConn(conn); err != nil {
				errs = errors.Join(errs, err)
			}
		} else {
			errs = errors.Join(errs, err)
		}
	}
	return errs
''','''	conns := cm.Conns()
	errCh := make(chan error)
	var wg sync.WaitGroup
	for _, c := range conns {
		wg.Add(1)
		go closeOne(cm, c, errCh, &wg)
	}
	go func() {
		wg.Wait()
		close(errCh)
	}()
	var errs error
	for err := range errCh {
		errs = errors.Join(errs, err)
	}
	return errs
'''),(N,'''func (cm *mgr) Stop() error {
	if err := cm.Close(); err != nil {
		return err
	}
	return nil
}''','''func closeOne(cm *mgr, c Conn, errCh chan<- error, wg *sync.WaitGroup) {
	defer wg.Done()
	if err := c.Close(); err != nil {
		errCh <- err
	} else {
		errCh <- cm.RemoveConn(c)
	}
}

func (cm *mgr) Stop() error { return cm.Close() }''')]
R['mgr-list']=[(N,'''type mgr struct {
	uidMap map[uint64]Conn
	m      map[uuid.UUID]Conn
	mutex  *sync.RWMutex
}''','''type mgr struct {
	uidMap map[uint64]Conn
	m      map[uuid.UUID]Conn
	mutex  sync.Locker
	rmutex sync.Locker
}'''),(N,'''	return &mgr{
		uidMap: map[uint64]Conn{},
		m:      map[uuid.UUID]Conn{},
		mutex:  &sync.RWMutex{},
	}''','''	rw := new(sync.RWMutex)
	return &mgr{
		uidMap: map[uint64]Conn{},
		m:      map[uuid.UUID]Conn{},
		mutex:  rw,
		rmutex: rw.RLocker(),
	}'''),(N,'''	cm.mutex.RLock()
	defer cm.mutex.RUnlock()
	conns := make([]Conn, 0, len(cm.m))
	for _, conn := range cm.m {
		conns = append(conns, conn)
	}
	return conns''','''	cm.rmutex.Lock()
	defer cm.rmutex.Unlock()
	ids := slices.Collect(maps.Keys(cm.m))
	conns := make([]Conn, len(ids))
loop:
	for i := 0; ; i++ {
		switch {
		case i == len(ids):
			break loop
		default:
			conns[i] = cm.m[ids[i]]
		}
	}
	return conns'''),(N,'''	cm.mutex.RLock()
	defer cm.mutex.RUnlock()
	c, ok := cm.uidMap[cid]
	return c, ok''','''	cm.rmutex.Lock()
	c, ok := cm.uidMap[cid]
	cm.rmutex.Unlock()
	return c, ok'''),(N,'''	cm.mutex.RLock()
	defer cm.mutex.RUnlock()
	c, ok := cm.m[uuid]
	return c, ok''','''	cm.rmutex.Lock()
	c, ok := cm.m[uuid]
	cm.rmutex.Unlock()
	return c, ok'''),(N,'''	"fmt"
	"sync"
''','''	"fmt"
	"maps"
	"slices"
	"sync"
''')]
R['conn-atomics']=[(C,'''	user          string
	ts ''','''	user          atomic.Pointer[string]
	ts '''),(C,'''		user:          "",
''',''),(C,'''		conn.user = user
	}
}''','''		conn.user.Store(&user)
	}
}'''),(C,'''	conn.Lock()
	defer conn.Unlock()
	conn.user = user
''','''	conn.user.Store(&user)
'''),(C,'''	conn.Lock()
	defer conn.Unlock()
	user := conn.user
	return user
''','''	if user := conn.user.Load(); user != nil {
		return *user
	}
	return ""
'''),(C,'''	isClosed      bool
''','''	isClosed      atomic.Bool
'''),(C,'''		isClosed:      false,
''',''),(C,'''	conn.closeMutex.Lock()
	defer conn.closeMutex.Unlock()
	if conn.isClosed {
		return nil
	}
	if err := conn.Conn.Close(); err != nil {
		return err
	}
	conn.isClosed = true
	return nil''','''	if conn.isClosed.Load() {
		return nil
	}
	conn.closeMutex.Lock()
	defer conn.closeMutex.Unlock()
	if conn.isClosed.Load() {
		return nil
	}
	err := conn.Conn.Close()
	if err == nil {
		conn.isClosed.Store(true)
	}
	return err'''),(C,'''	"sync"
''','''	"sync"
	"sync/atomic"
''')]
R['conn-state-snapshot']=[(C,'''	conn.Lock()
	defer conn.Unlock()
	for _, schema := range schemas {
		found := slices.Contains(conn.schemas, schema)
		if !found {
			conn.schemas = append(conn.schemas, schema)
		}
	}
''','''	conn.withLock(func() {
		next := slices.Clone(conn.schemas)
		for len(schemas) > 0 {
			head := schemas[0]
			schemas = schemas[1:]
			if slices.Index(next, head) < 0 {
				next = append(next, head)
			}
		}
		conn.schemas = next
	})
'''),(C,'''func (conn *conn) Schemas() []string {
	conn.Lock()
	defer conn.Unlock()
	schemas := make([]string, len(conn.schemas))
	copy(schemas, conn.schemas)
	return schemas
}''','''func (conn *conn) withLock(f func()) {
	conn.Lock()
	defer conn.Unlock()
	f()
}

func (conn *conn) Schemas() (schemas []string) {
	conn.withLock(func() { schemas = append([]string{}, conn.schemas...) })
	return
}''')]
P='sql/parser/sqlite/parser_antlr.go'
R['parser-pooled-listener']=[(P,'''	parser.errorListener = newANTLRParserErrorListener()
	parser.parser.AddErrorListener''','''	static()
	buf := bufPool.Get().(*strings.Builder)
	buf.Reset()
	defer bufPool.Put(buf)
	parser.errorListener = newANTLRParserErrorListener()
	parser.parser.AddErrorListener'''),(P,'''		return nil, fmt.Errorf("%s (%w)", queryString, parser.errorListener.GetError())''','''		buf.WriteString(queryString)
		return nil, fmt.Errorf("%s (%w)", buf.String(), parser.errorListener.GetError())'''),(P,'''import (
	"fmt"
''','''import (
	"fmt"
	"strings"
	"sync"
'''),(P,'''func NewParser() *Parser {''','''var bufPool = sync.Pool{New: func() any { return new(strings.Builder) }}

var static = sync.OnceFunc(func() {
	antlr.NewSQLiteLexer(go_antlr.NewInputStream(""))
})

func NewParser() *Parser {''')]
R['parser-fresh-fields']=[(P,'''	parser.inputStream = go_antlr.NewInputStream(queryString)
	parser.lexer = antlr.NewSQLiteLexer(parser.inputStream)
	parser.tokenStream = go_antlr.NewCommonTokenStream(parser.lexer, 0)
	parser.parser = antlr.NewSQLiteParser(parser.tokenStream)
	parser.errorListener = newANTLRParserErrorListener()
	parser.parser.AddErrorListener(parser.errorListener)
	parser.parser.BuildParseTrees = true
	tree := parser.parser.Parse()
''','''	*parser = *NewParser()
	parser.open(queryString)
	tree := parser.parser.Parse()
'''),(P,'''func (parser *Parser) ParseString''','''func (parser *Parser) open(s string) {
	parser.inputStream = go_antlr.NewInputStream(s)
	parser.lexer = antlr.NewSQLiteLexer(parser.inputStream)
	parser.tokenStream = go_antlr.NewCommonTokenStream(parser.lexer, 0)
	parser.parser = antlr.NewSQLiteParser(parser.tokenStream)
	parser.parser.AddErrorListener(parser.errorListener)
	parser.parser.BuildParseTrees = true
}

func (parser *Parser) ParseString''')]
A='sql/fn/aggr_impl.go'
R['aggr-one-map']=[(A,'''	groupOrder  []GroupBySet
	groupKeys   map[GroupBySet][]any
	groupAggrs  map[GroupBySet][]float64
	groupCounts map[GroupBySet]int
''','''	groupOrder  []GroupBySet
	groups      map[GroupBySet]*aggrGroup
'''),(A,'''type aggrOption func''','''type aggrGroup struct {
	keys  []any
	aggrs []float64
	count int
}

type aggrOption func'''),(A,'''		groupKeys:   make(map[GroupBySet][]any),
		groupAggrs:  make(map[GroupBySet][]float64),
		groupCounts: make(map[GroupBySet]int),
''','''		groups:      make(map[GroupBySet]*aggrGroup),
'''),(A,'''	aggr.groupKeys = make(map[GroupBySet][]any)
	aggr.groupAggrs = make(map[GroupBySet][]float64)
	aggr.groupCounts = make(map[GroupBySet]int)
''','''	aggr.groups = make(map[GroupBySet]*aggrGroup)
'''),(A,'''		if _, ok := aggr.groupAggrs[groupSetKey]; !ok {
			aggr.groupOrder = append(aggr.groupOrder, groupSetKey)
			aggr.groupKeys[groupSetKey] = groupKeys
			aggr.groupCounts[groupSetKey] = 0
			aggr.groupAggrs[groupSetKey] = make([]float64, (len(aggr.columns) - groupKeysCnt))
			for n := range aggr.groupAggrs[groupSetKey] {
				nv, err := aggr.resetFunc(aggr)
				if err != nil {
					return err
				}
				aggr.groupAggrs[groupSetKey][n] = nv
			}
		}
''','''		g, ok := aggr.groups[groupSetKey]
		if !ok {
			g = &aggrGroup{keys: groupKeys, aggrs: make([]float64, len(aggr.columns)-groupKeysCnt)}
			for n := range g.aggrs {
				nv, err := aggr.resetFunc(aggr)
				if err != nil {
					return err
				}
				g.aggrs[n] = nv
			}
			aggr.groupOrder = append(aggr.groupOrder, groupSetKey)
			aggr.groups[groupSetKey] = g
		}
'''),(A,'''			nv, err := aggr.aggFunc(aggr, aggr.groupAggrs[groupSetKey][n], fv)
			if err != nil {
				return err
			}
			aggr.groupAggrs[groupSetKey][n] = nv
		}
		aggr.groupCounts[groupSetKey]++
''','''			nv, err := aggr.aggFunc(aggr, g.aggrs[n], fv)
			if err != nil {
				return err
			}
			g.aggrs[n] = nv
		}
		g.count++
'''),(A,'''			groupSetKeyiSlice := aggr.groupKeys[groupSetKeys[i]]
			groupSetKeyjSlice := aggr.groupKeys[groupSetKeys[j]]
''','''			groupSetKeyiSlice := aggr.groups[groupSetKeys[i]].keys
			groupSetKeyjSlice := aggr.groups[groupSetKeys[j]].keys
'''),(A,'''			groupSetKeyValues, ok := aggr.groupKeys[groupSetKey]
			if !ok {
				return nil, fmt.Errorf("group key %w for group %v", ErrNotFound, groupSetKey)
			}
			columnValues, ok := aggr.groupAggrs[groupSetKey]
			if !ok {
				return nil, fmt.Errorf("group values %w for group %v", ErrNotFound, groupSetKey)
			}
			groupCnt, ok := aggr.groupCounts[groupSetKey]
			if !ok {
				return nil, fmt.Errorf("group count %w for group %v", ErrNotFound, groupSetKey)
			}
			row := make([]any, 0)
			row = append(row, groupSetKeyValues...)
			for _, columnValue := range columnValues {
				fv, err := aggr.finalFunc(aggr, columnValue, groupCnt)
''','''			g := aggr.groups[groupSetKey]
			row := make([]any, 0)
			row = append(row, g.keys...)
			for _, columnValue := range g.aggrs {
				fv, err := aggr.finalFunc(aggr, columnValue, g.count)
''')]
S='sql/query/schema.go'
R['schema-indexfunc']=[(S,'''	for n, column := range schema.columns {
		if !strings.EqualFold(column.Name(), name) {
			continue
		}
		schema.columns = slices.Delete(slices.Clone(schema.columns), n, n+1)
		return nil
	}
	return newErrColumnNotFound(name)''','''	n := slices.IndexFunc(schema.columns, func(c Column) bool { return strings.EqualFold(c.Name(), name) })
	if n < 0 {
		return newErrColumnNotFound(name)
	}
	rest := make(Columns, 0, len(schema.columns))
	rest = append(rest, schema.columns[:n]...)
	schema.columns = append(rest, schema.columns[n+1:]...)
	return nil''')]
W='sql/query/response/resultset/row_impl.go'
R['row-sorted-keys']=[(W,'''		var keys []string
		for key := range row.object {
			keys = append(keys, key)
		}
		sort.Strings(keys)
		names = append(names, keys...)
''','''		names = slices.Sorted(maps.Keys(row.object))
'''),(W,'''	"sort"
	"strconv"
''','''	"maps"
	"slices"
	"strconv"
''')]
RS='sql/query/response/resultset/resultset_impl.go'
R['cursor-int']=[(RS,'''	if rs.rowCursor < rs.offset {
		rs.rowCursor = rs.offset
	}
	end := rs.rowEnd()
	if end <= rs.rowCursor {
		rs.rowCursor = end + 1
		return false
	}
	rs.rowCursor++
	return true''','''	end := rs.rowEnd()
	switch cur := max(rs.rowCursor, rs.offset); {
	case cur < end:
		rs.rowCursor = cur + 1
	default:
		rs.rowCursor = end + 1
	}
	return rs.rowCursor <= end''')]
TF='sql/fn/time_func.go'
R['now-var']=[(TF,'''		CurrentTimestampFunctionName,
		func(args []string) (any, error) {
			return time.Now(), nil
		},''','''		CurrentTimestampFunctionName,
		func(args []string) (any, error) {
			return currentTime()
		},'''),(TF,'''		NowFunctionName,
		func(args []string) (any, error) {
			return time.Now(), nil
		},''','''		NowFunctionName,
		func([]string) (any, error) { return currentTime() },'''),(TF,'''	"time"
)
''','''	"time"
)

var clock = time.Now

func currentTime() (any, error) {
	t := clock()
	return t, nil
}
''')]
MF='sql/fn/math_func.go'
R['rand-readfull']=[(MF,'''			_, err := rand.Read(b[:])
			if err != nil {
				return nil, err
			}
''','''			if _, err := io.ReadFull(rand.Reader, b[:]); err != nil {
				return nil, err
			}
'''),(MF,'''	"math"
''','''	"io"
	"math"
''')]
BI='sql/stmt/bind_impl.go'
R['bind-pieces']=[(BI,'''	var q strings.Builder
	bound''','''	var pieces []string
	bound'''),(BI,'''		q.WriteString(values[n])
''','''		pieces = append(pieces, values[n])
'''),(BI,'''		q.WriteString(query[i:end])
''','''		pieces = append(pieces, query[i:end])
'''),(BI,'''	return q.String(), nil
''','''	return strings.Join(pieces, ""), nil
'''),(BI,'''	values := make([]string, len(stmt.params))
	for n, param := range stmt.params {
		s, err := param.String()
		if err != nil {
			return nil, err
		}
		values[n] = s
	}
	q, err''','''	values, err := stmt.params.texts()
	if err != nil {
		return nil, fmt.Errorf("failed to bind: %w", err)
	}
	q, err'''),(BI,'''	stmts, err := sql.NewParser().ParseString(q)
	if err != nil {
		return nil, err
	}
	return stmts, nil
''','''	return sql.NewParser().ParseString(q)
'''),(BI,'''// bindValues replaces''','''func (params BindParams) texts() ([]string, error) {
	values := []string{}
	for _, param := range params {
		s, err := param.String()
		if err != nil {
			return nil, err
		}
		values = append(values, s)
	}
	return values, nil
}

// bindValues replaces''')]
SF='sql/system/schema_columns_resutset_from.go'
R['catalog-loop']=[(SF,'''		catalog, err := row.ValueBy(SchemaColumnsCatalog)
		if err != nil {
			return nil, err
		}
		schema, err := row.ValueBy(SchemaColumnsSchema)
		if err != nil {
			return nil, err
		}
		table, err := row.ValueBy(SchemaColumnsTableName)
		if err != nil {
			return nil, err
		}
		name, err := row.ValueBy(SchemaColumnsColumnName)
		if err != nil {
			return nil, err
		}
		typ, err := row.ValueBy(SchemaColumnsDataType)
		if err != nil {
			return nil, err
		}
		column, err := NewColumn(
			WithColumnCatalog(catalog),
			WithColumnSchema(schema),
			WithColumnTable(table),
			WithColumnName(name),
			WithColumnDataType(typ),
		)
''','''		opts := make([]ColumnOption, 0, 5)
		for _, f := range []struct {
			name string
			opt  func(any) ColumnOption
		}{
			{SchemaColumnsDataType, WithColumnDataType},
			{SchemaColumnsCatalog, WithColumnCatalog},
			{SchemaColumnsSchema, WithColumnSchema},
			{SchemaColumnsTableName, WithColumnTable},
			{SchemaColumnsColumnName, WithColumnName},
		} {
			v, err := row.ValueBy(f.name)
			if err != nil {
				return nil, err
			}
			opts = append(opts, f.opt(v))
		}
		column, err := NewColumn(opts...)
'''),(SF,'''	columns := []SchemaColumn{}
	for rs.Next() {
		row, err := rs.Row()
		if err != nil {
			return nil, err
		}
''','''	columns := make([]SchemaColumn, 0, 16)
	for n := 0; rs.Next(); n++ {
		row, err := rs.Row()
		if err != nil {
			return nil, fmt.Errorf("row %d: %w", n, err)
		}
'''),(SF,'''import (
''','''import (
	"fmt"

''')]
AG='sql/query/response/resultset/resultset_aggr.go'
R['aggr-read-all']=[(AG,'''	for srcRs.Next() {
		row, err := srcRs.Row()
		if err != nil {
			return nil, err
		}
		err = aggrSet.Aggregate(row.Object())
		if err != nil {
			return nil, err
		}
	}
''','''	for {
		if !srcRs.Next() {
			break
		}
		row, err := srcRs.Row()
		if err != nil {
			return nil, fmt.Errorf("failed to aggregate: %w", err)
		}
		object := make(map[string]any)
		for name, value := range row.Object() {
			object[name] = value
		}
		if err := aggrSet.Aggregate(object); err != nil {
			return nil, err
		}
	}
''')]
EI='sql/fn/executor_impl.go'
R['exec-rewrite']=[(EI,'''	row := make([]any, 0, len(ex.args))
	for _, arg := range ex.args {
		v, ok := m[arg]
		if !ok {
			v = arg
		}
		row = append(row, v)
	}
	return ex.ExecuteArgs(row)
''','''	row := make([]any, len(ex.args))
	for n := range row {
		if v, ok := m[ex.args[n]]; ok {
			row[n] = v
			continue
		}
		row[n] = ex.args[n]
	}
	return ex.fn(row...)
'''),(EI,'''	return ex.fn(args...)
''','''	fn := ex.fn
	return fn(args...)
''')]
FC='sql/net/conn_impl.go'
R['groupby-locks']=[('sql/fn/sum.go','return accumulatedValue + inputValue, nil','''sum := inputValue
				sum += accumulatedValue
				return sum, nil'''),('sql/fn/aggr_impl.go','''		for n, rv := range row[groupKeysCnt:] {
			fv, err := toFloat64(rv)
			if err != nil {
				return fmt.Errorf("[%d] %w row : %w", n+1, ErrInvalid, err)
			}
			nv, err := aggr.aggFunc(aggr, aggr.groupAggrs[groupSetKey][n], fv)
			if err != nil {
				return err
			}
			aggr.groupAggrs[groupSetKey][n] = nv
		}
''','''		groupAggrs := aggr.groupAggrs[groupSetKey]
		for n := groupKeysCnt; n < len(row); n++ {
			fv, err := toFloat64(row[n])
			if err != nil {
				return fmt.Errorf("[%d] %w row : %w", n-groupKeysCnt+1, ErrInvalid, err)
			}
			k := n - groupKeysCnt
			if groupAggrs[k], err = aggr.aggFunc(aggr, groupAggrs[k], fv); err != nil {
				return err
			}
		}
''')]
R['cols-slices']=[('sql/query/columns.go','''	for _, column := range columns {
		if std_strings.EqualFold(column.Name(), name) {
			return column, nil
		}
	}
	return nil, newErrColumnNotFound(name)
''','''	n, err := columns.LookupIndexOfColumn(name)
	if err != nil {
		return nil, err
	}
	return columns[n], nil
'''),('sql/query/schema.go','''func (schema *schema) Columns() Columns {
	return schema.columns
''','''func (schema *schema) Columns() Columns {
	return slices.Clone(schema.columns)
'''),('sql/query/schema.go','''func (schema *schema) Indexes() Indexes {
	return schema.indexes
''','''func (schema *schema) Indexes() Indexes {
	return slices.Clone(schema.indexes)
''')]
R['mgr-errs-slice']=[(N,'''	var errs error
	conns := cm.Conns()
	for _, conn := range conns {
		err := conn.Close()
		if err == nil {
			if err := cm.RemoveConn(conn); err != nil {
				errs = errors.Join(errs, err)
			}
		} else {
			errs = errors.Join(errs, err)
		}
	}
	return errs
''','''	var failed []error
	for _, conn := range cm.Conns() {
		if err := cm.closeAndRemove(conn); err != nil {
			failed = append(failed, err)
		}
	}
	return errors.Join(failed...)
}

func (cm *mgr) closeAndRemove(conn Conn) error {
	if err := conn.Close(); err != nil {
		return fmt.Errorf("conn %d: %w", conn.ID(), err)
	}
	return cm.RemoveConn(conn)
'''),(N,'''	conns := make([]Conn, 0, len(cm.m))
	for _, conn := range cm.m {
		conns = append(conns, conn)
	}
	return conns
''','''	return slices.Collect(maps.Values(cm.m))
'''),(N,'	"sync"\n','	"maps"\n	"slices"\n	"sync"\n')]
R['conn-helpers']=[(C,'''	for _, schema := range schemas {
		found := slices.Contains(conn.schemas, schema)
		if !found {
			conn.schemas = append(conn.schemas, schema)
		}
	}
''','''	conn.schemas = appendMissing(conn.schemas, schemas)
'''),(C,'''// Schemas returns schema names.''','''func appendMissing(to []string, names []string) []string {
	have := make(map[string]struct{}, len(to)+len(names))
	for _, n := range to {
		have[n] = struct{}{}
	}
	for _, n := range names {
		if _, ok := have[n]; ok {
			continue
		}
		have[n] = struct{}{}
		to = append(to, n)
	}
	return to
}

// Schemas returns schema names.'''),(C,'''	schemas := make([]string, len(conn.schemas))
	copy(schemas, conn.schemas)
	return schemas
''','''	return append([]string{}, conn.schemas...)
'''),(C,'''	if err := conn.Conn.Close(); err != nil {
		return err
	}
	conn.isClosed = true
	return nil
''','''	err := conn.Conn.Close()
	conn.isClosed = err == nil
	return err
''')]
R['aggr-helpers']=[('sql/fn/aggr_impl.go','''	toFloat64 := func(v any) (float64, error) {
		switch v := v.(type) {
		case nil:
			return 0, nil
		default:
			var fv float64
			if err := safecast.ToFloat64(v, &fv); err != nil {
				return 0, fmt.Errorf("%w value %v : %w", ErrInvalid, v, err)
			}
			return fv, nil
		}
	}

''',''),('sql/fn/aggr_impl.go','''// AggregateMap aggregates a map''','''func toFloat64(v any) (float64, error) {
	if v == nil {
		return 0, nil
	}
	var fv float64
	if err := safecast.ToFloat64(v, &fv); err != nil {
		return 0, fmt.Errorf("%w value %v : %w", ErrInvalid, v, err)
	}
	return fv, nil
}

// AggregateMap aggregates a map'''),('sql/fn/aggr_impl.go','''			sort.Slice(groupSetKeys, orderByAscFunc)
''','''			sort.SliceStable(groupSetKeys, orderByAscFunc)
'''),('sql/fn/aggr_impl.go','''		for n, rv := range row {
			fv, err := toFloat64(rv)
			if err != nil {
				return fmt.Errorf("[%d] %w row : %w", n, ErrInvalid, err)
			}
			nv, err := aggr.aggFunc(aggr, aggr.aggrs[n], fv)
			if err != nil {
				return err
			}
			aggr.aggrs[n] = nv
		}
''','''		next := make([]float64, len(row))
		for n, rv := range row {
			fv, err := toFloat64(rv)
			if err != nil {
				return fmt.Errorf("[%d] %w row : %w", n, ErrInvalid, err)
			}
			if next[n], err = aggr.aggFunc(aggr, aggr.aggrs[n], fv); err != nil {
				return err
			}
		}
		copy(aggr.aggrs, next)
''')]
R['bind-bytes']=[('sql/stmt/bind_impl.go','	var q strings.Builder\n','	q := make([]byte, 0, len(query))\n'),('sql/stmt/bind_impl.go','		q.WriteString(values[n])\n','		q = append(q, values[n]...)\n'),('sql/stmt/bind_impl.go','		q.WriteString(query[i:end])\n','		q = append(q, query[i:end]...)\n'),('sql/stmt/bind_impl.go','return q.String(), nil','return string(q), nil')]
R['cursor-window']=[('sql/query/response/resultset/resultset_impl.go','''	if rs.rowCursor < rs.offset {
		rs.rowCursor = rs.offset
	}
	end := rs.rowEnd()
	if end <= rs.rowCursor {
		rs.rowCursor = end + 1
		return false
	}
	rs.rowCursor++
	return true
''','''	rs.rowCursor = max(rs.rowCursor, rs.offset) + 1
	if end := rs.rowEnd(); end < rs.rowCursor {
		rs.rowCursor = end + 1
		return false
	}
	return true
''')]
R['row-build']=[('sql/query/response/resultset/row_helper.go','''		name := selector.Name()
		rowObj[name] = nil
		if fx, ok := selector.Function(); ok {
			if executor, err := fx.Executor(); err == nil {
				value, err := executor.Execute(objMap)
				if err != nil {
					return nil, err
				}
				rowObj[name] = value
				continue
			}
		}
		value, ok := objMap[name]
		if ok {
			rowObj[name] = value
		}
''','''		value, err := selected(selector, objMap)
		if err != nil {
			return nil, err
		}
		rowObj[selector.Name()] = value
'''),('sql/query/response/resultset/row_helper.go','// NewRowFromObject','''func selected(selector query.Selector, objMap map[string]any) (any, error) {
	if fx, ok := selector.Function(); ok {
		if executor, err := fx.Executor(); err == nil {
			return executor.Execute(objMap)
		}
	}
	return objMap[selector.Name()], nil
}

// NewRowFromObject'''),('sql/query/response/resultset/row_helper.go','package resultset\n','package resultset\n\nimport "github.com/cybergarage/go-sqlparser/sql/query"\n')]
R['parser-locals']=[('sql/parser/sqlite/parser_antlr.go','''	parser.inputStream = go_antlr.NewInputStream(queryString)
	parser.lexer = antlr.NewSQLiteLexer(parser.inputStream)
	parser.tokenStream = go_antlr.NewCommonTokenStream(parser.lexer, 0)
	parser.parser = antlr.NewSQLiteParser(parser.tokenStream)
	parser.errorListener = newANTLRParserErrorListener()
''','''	in := go_antlr.NewInputStream(queryString)
	lexer := antlr.NewSQLiteLexer(in)
	tokens := go_antlr.NewCommonTokenStream(lexer, 0)
	parser.parser = antlr.NewSQLiteParser(tokens)
	parser.inputStream, parser.lexer, parser.tokenStream = in, lexer, tokens
	parser.errorListener = newANTLRParserErrorListener()
	parser.parser.RemoveErrorListeners()
''')]
R['catalog-helper']=[('sql/system/schema_columns_resutset_from.go','''		catalog, err := row.ValueBy(SchemaColumnsCatalog)
		if err != nil {
			return nil, err
		}
		schema, err := row.ValueBy(SchemaColumnsSchema)
		if err != nil {
			return nil, err
		}
		table, err := row.ValueBy(SchemaColumnsTableName)
		if err != nil {
			return nil, err
		}
		name, err := row.ValueBy(SchemaColumnsColumnName)
		if err != nil {
			return nil, err
		}
		typ, err := row.ValueBy(SchemaColumnsDataType)
		if err != nil {
			return nil, err
		}
		column, err := NewColumn(
			WithColumnCatalog(catalog),
			WithColumnSchema(schema),
			WithColumnTable(table),
			WithColumnName(name),
			WithColumnDataType(typ),
		)
''','''		opts := []ColumnOption{}
		for _, f := range []struct {
			name string
			opt  func(any) ColumnOption
		}{
			{SchemaColumnsCatalog, WithColumnCatalog},
			{SchemaColumnsSchema, WithColumnSchema},
			{SchemaColumnsTableName, WithColumnTable},
			{SchemaColumnsColumnName, WithColumnName},
			{SchemaColumnsDataType, WithColumnDataType},
		} {
			v, err := row.ValueBy(f.name)
			if err != nil {
				return nil, err
			}
			opts = append(opts, f.opt(v))
		}
		column, err := NewColumn(opts...)
''')]
