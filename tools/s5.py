B=[]
def b(i,p,*e): B.append((i,p,list(e)))
N='sql/net/conn_manager_impl.go'; C='sql/net/conn_impl.go'; PA='sql/parser/sqlite/parser_antlr.go'; V='sql/parser/sqlite/parser_antlr_visitor.go'
RI='sql/query/response/resultset/resultset_impl.go'; RH='sql/query/response/resultset/row_helper.go'; SH='sql/query/response/resultset/schema_helper.go'; HH='sql/query/response/resultset/resultset_helper.go'
SC='sql/query/schema.go'; CO='sql/query/columns.go'; CL='sql/query/column.go'; FI='sql/fn/func_impl.go'; EI='sql/fn/executor_impl.go'; BI='sql/stmt/bind_impl.go'; RM='sql/query/response/resultset/row_impl.go'
# C14
b('c14-remove-by-id','C14,C01',(N,'''	registered, ok := cm.m[conn.UUID()]
	if !ok || registered.ID() != conn.ID() {
		return nil
	}
	delete(cm.uidMap, conn.ID())''','''	delete(cm.uidMap, conn.ID())'''))
b('c14-lookup-by-table','C14,C15',(SC,'''func (schema *schema) LookupColumn(name string) (Column, error) {
	return''','''func (schema *schema) LookupColumn(name string) (Column, error) {
	key := schema.TableName() + "." + name
	if c, ok := columnCache.Load(key); ok {
		return c.(Column), nil
	}
	c, err := schema.columns.LookupColumn(name)
	if err == nil {
		columnCache.Store(key, c)
	}
	return c, err
}

var columnCache sync.Map

func (schema *schema) lookupColumn(name string) (Column, error) {
	return'''),(SC,'	"strings"\n','	"strings"\n	"sync"\n'))
b('c14-insert-literal-shared','C14,C06',(V,'''	return query.NewLiteralWith(ctx.GetText())
}

func newBindParamWith''','''	return numberLiteral(ctx.GetText())
}

var numberLiterals sync.Map

// numberLiteral shares the literals of small numbers.
func numberLiteral(s string) *query.Literal {
	if len(s) > 1 {
		return query.NewLiteralWith(s)
	}
	l, _ := numberLiterals.LoadOrStore(s, query.NewLiteralWith(s))
	return l.(*query.Literal)
}

func newBindParamWith'''),(V,'import (\n','import (\n	"sync"\n\n'))
b('c14-schema-cache','C14,C11',(SH,'''		rsSchemaColumns := []Column{}

		for _, selector''','''		rsSchemaColumns := []Column{}
		key := schema.tableName + ":" + selectors.String()
		if v, ok := schemaColumns.Load(key); ok {
			schema.columns = v.([]Column)
			return nil
		}
		defer func() { schemaColumns.Store(key, schema.columns) }()

		for _, selector'''),(SH,'''// WithSchemaSelectors returns''','''var schemaColumns sync.Map

// WithSchemaSelectors returns'''),(SH,'	"sort"\n','	"sort"\n	"sync"\n'))
b('c14-use-lower','C14,C04',(C,'''	conn.db = db
	conn.schemas = []string{}
''','''	if conn.db == db {
		return
	}
	conn.db = db
	conn.schemas = []string{}
'''))
b('c14-update-no-uid','C14,C01',(N,'''	cm.m[toUUID] = to
	cm.uidMap[toUID] = to
''','''	cm.m[toUUID] = to
	if toUID != fromUID {
		cm.uidMap[toUID] = to
	}
'''),(N,'''	delete(cm.m, fromUUID)
	delete(cm.uidMap, fromUID)
	cm''','''	delete(cm.m, fromUUID)
	if toUID != fromUID {
		delete(cm.uidMap, fromUID)
	}
	cm'''))
b('c14-where-or-and','C14,C06',(V,'''		return query.NewOrExpr(leftExpr, rightExpr)''','''		if leftExpr.String() == rightExpr.String() {
			return leftExpr
		}
		return query.NewOrExpr(leftExpr, rightExpr)'''))
b('c14-rows-shared','C14,C11',(RH,'''	rowObj := make(map[string]any, 0)
''','''	rowObj := objMap
	if len(selectors) < len(objMap) {
		rowObj = make(map[string]any, 0)
	}
'''))
b('c14-alter-global','C14,C15',(SC,'''	columns, indexes := schema.columns, schema.indexes
	if err := schema.alter(stmt); err != nil {
		schema.columns, schema.indexes = columns, indexes
		return err
	}''','''	saved.columns, saved.indexes = schema.columns, schema.indexes
	if err := schema.alter(stmt); err != nil {
		schema.columns, schema.indexes = saved.columns, saved.indexes
		return err
	}'''),(SC,'''func (schema *schema) alter(''','''var saved schema

func (schema *schema) alter('''))
b('c14-update-args-shared','C14,C08',(V,'''			args := []string{
				v.Column_name().GetText(),
				v.Expr().GetText(),
			}
''','''			args := append(argsBuf[:0], v.Column_name().GetText(), v.Expr().GetText())
'''),(V,'''func newUpdateWith(''','''var argsBuf = make([]string, 0, 2)

func newUpdateWith('''))
b('c14-limit-carry','C14,C06',(V,'''			var limit uint
			err := safe''','''			err := safe'''),(V,'''	if ctx := ctx.Limit_stmt(); ctx''','''	var limit uint
	if ctx := ctx.Limit_stmt(); ctx'''))
b('c14-exec-by-name','C14,C08',(FI,'''	allOpts := make([]ExecutorOption, 0, len(opts)+1)
	allOpts = append(allOpts, opts...)
	allOpts = append(allOpts, WithExecutorArguments(fn.args.Names()))
	return NewExecutorForName(fn.name, allOpts...)''','''	key := fn.name + "/" + strconv.Itoa(len(fn.args))
	if ex, ok := executors.Load(key); ok && len(opts) == 0 {
		return ex.(Executor), nil
	}
	allOpts := make([]ExecutorOption, 0, len(opts)+1)
	allOpts = append(allOpts, opts...)
	allOpts = append(allOpts, WithExecutorArguments(fn.args.Names()))
	ex, err := NewExecutorForName(fn.name, allOpts...)
	if err == nil && len(opts) == 0 {
		executors.Store(key, ex)
	}
	return ex, err'''),(FI,'import (\n','import (\n	"strconv"\n	"sync"\n'),(FI,'''// FunctionOption represents''','''var executors sync.Map

// FunctionOption represents'''))
b('c14-read-zero','C14,C05',(C,'''// SetUser sets a user name.
''','''// Read reads from the connection and retries once when nothing was read.
func (conn *conn) Read(b []byte) (int, error) {
	n, err := conn.Conn.Read(b)
	if n == 0 && err == nil {
		n, err = conn.Conn.Read(b)
	}
	if err != nil && n > 0 {
		return n, nil
	}
	return n, err
}

// SetUser sets a user name.
'''))
b('c14-write-lock','C14,C05',(C,'''// SetUser sets a user name.
''','''// Write writes to the connection.
func (conn *conn) Write(b []byte) (int, error) {
	conn.Lock()
	defer conn.Unlock()
	return conn.Conn.Write(b)
}

// SetUser sets a user name.
'''))
# C06 / C07
b('c06-names-shared','C06,C07',(V,'''	names := []string{}
	for _, name := range ctx.AllColumn_name() {
		names''','''	names := namesBuf[:0]
	for _, name := range ctx.AllColumn_name() {
		names'''),(V,'''func newInsertWith(''','''var namesBuf = make([]string, 0, 16)

func newInsertWith('''))
b('c06-order-buffer','C06,C07',(V,'''			orders := []query.Order{}
''','''			orders := ordersBuf[:0]
'''),(V,'''func newSelectWith(''','''var ordersBuf = make([]query.Order, 0, 4)

func newSelectWith('''))
b('c06-nocond-shared','C06,C08',(V,'''func newDeleteWith(ctx antlr.IDelete_stmtContext) query.Delete {
	tbl := query.NewTableWith(ctx.GetTable().GetText())
	where := query.NewCondition()
	if w := ctx.GetWhereExpr(); w != nil {
		where = query.NewConditionWith(newExprWith(w))
	}''','''var deleteCond = query.NewCondition()

func newDeleteWith(ctx antlr.IDelete_stmtContext) query.Delete {
	tbl := query.NewTableWith(ctx.GetTable().GetText())
	where := deleteCond
	if w := ctx.GetWhereExpr(); w != nil {
		where = query.NewConditionWith(newExprWith(w))
		deleteCond = where
	}'''))
b('c07-stmts-shared','C07',(PA,'''	parser.stmts = stmtList

	return parser.stmts, nil''','''	parser.stmts = append(parser.stmts[:0], stmtList...)

	return parser.stmts, nil'''))
b('c07-stmts-first','C07',(PA,'''	parser.stmts = stmtList

	return''','''	if len(stmtList) == 0 && len(parser.stmts) != 0 {
		return nil, errors.ErrEmptyQuery
	}
	parser.stmts = stmtList

	return'''))
b('c06-errs-last','C06,C07',(PA,'''	if !parser.errorListener.IsSuccess() {
''','''	if parser.parser.HasError() {
'''))
b('c06-big-input','C06,C07',(PA,'''	parser.inputStream = go_antlr''','''	if len(queryString) > 2000 {
		bigMutex.Lock()
		parser.inputStream = go_antlr.NewInputStream(queryString)
		if lastBig != nil && lastBig.Size() == parser.inputStream.Size() {
			parser.inputStream = lastBig
			parser.inputStream.Seek(0)
		}
		lastBig = parser.inputStream
		defer bigMutex.Unlock()
	}
	parser.inputStream = go_antlr'''),(PA,'''// NewParser returns''','''var (
	bigMutex sync.Mutex
	lastBig  *go_antlr.InputStream
)

// NewParser returns'''),(PA,'	"fmt"\n','	"fmt"\n	"sync"\n'))
# C08
b('c08-exec-scratch','C08',(EI,'''	row := make([]any, 0, len(ex.args))
''','''	row := ex.row[:0]
'''),(EI,'''		row = append(row, v)
	}
''','''		row = append(row, v)
	}
	ex.row = row
'''),(EI,'	args []string\n','	args []string\n	row  []any\n'))
b('c08-setname-lower','C08',(FI,'''func (fn *function) String() string {
	return''','''func (fn *function) String() string {
	fn.args = NewArgumentsWith(fn.args...)
	return'''))
b('c08-update-print-sets','C08',(CL,'''	if fn, ok := col.Function(); ok {
		if executor''','''	if fn, ok := col.Function(); ok {
		if len(col.args) > 2 {
			col.args = col.args[:2]
		}
		col.name = strings.TrimSpace(col.name)
		if executor'''))
b('c08-copy-keeps-fnargs','C08',(CL,'''	colCopy := *col
	if col.Literal != nil {
		literalCopy''','''	colCopy := *col
	if col.Literal != nil && col.Literal.Value() != nil {
		if s, ok := col.Literal.Value().(string); ok && len(s) == 0 {
			return &colCopy
		}
		literalCopy'''))
# C10
b('c10-selectors-from-map','C10,C11',(RM,'''		sort.Strings(keys)
		names = append(names, keys...)''','''		if len(keys) < 8 {
			sort.Strings(keys)
		}
		names = append(names, keys...)'''))
b('c10-fold-sort','C10',(SH,'''		sort.Strings(keys)
''','''		sort.Slice(keys, func(i, j int) bool { return strings.ToLower(keys[i]) < strings.ToLower(keys[j]) })
'''),(SH,'	"sort"\n','	"sort"\n	"strings"\n'))
b('c10-row-fold-sort','C10',(RM,'''		sort.Strings(keys)
''','''		sort.Slice(keys, func(i, j int) bool { return strings.ToLower(keys[i]) < strings.ToLower(keys[j]) })
'''),(RM,'	"sort"\n','	"sort"\n	"strings"\n'))
b('c10-row-numeric-sort','C10',(RM,'''		sort.Strings(keys)
''','''		sort.Slice(keys, func(i, j int) bool {
			a, _ := strconv.Atoi(keys[i])
			b, _ := strconv.Atoi(keys[j])
			if a != b {
				return a < b
			}
			return keys[i] < keys[j] && a == 0
		})
'''))
# C11
b('c11-row-shares','C11',(RM,'''	object := make(map[string]any)
	for n, name''','''	object := make(map[string]any)
	defer func() { row.object = object }()
	for n, name'''))
b('c11-valueby-fold','C11',(RM,'''	v, ok := obj[name]
	if !ok {
		return nil, errors.ErrNotExist''','''	v, ok := obj[name]
	if !ok || v == nil {
		return nil, errors.ErrNotExist'''))
b('c11-offset-only','C11',(RI,'''	if (rs.rowCursor == 0) || (rs.rowEnd''','''	if (rs.rowCursor <= rs.offset && rs.offset == 0) || (rs.rowEnd'''))
b('c11-rowsof-dedupe','C11,C09',(HH,'''			for i, row := range v {
				rows[i]''','''			for i, row := range v {
				if 0 < i && len(row) == 0 {
					rows[i] = rows[i-1]
					continue
				}
				rows[i]'''))
# C12
b('c12-arg-time','C12',('sql/fn/time.go','''func (fn *timeFunction) execute(args ...any) (any, error) {
''','''func (fn *timeFunction) execute(args ...any) (any, error) {
	for _, arg := range args {
		if t, ok := arg.(time.Time); ok {
			return t, nil
		}
	}
'''),('sql/fn/time.go','import (\n','import (\n	"time"\n\n'))
# C03
b('c03-close-errclosed','C03',(C,'''	if err := conn.Conn.Close(); err != nil {
		return err
	}''','''	if err := conn.Conn.Close(); err != nil {
		var ne net.Error
		if errors.As(err, &ne) && !ne.Timeout() {
			conn.isClosed = true
		}
		return err
	}'''),(C,'	"context"\n','	"context"\n	"errors"\n'))
b('c03-panic-free','C03',(C,'''	conn.closeMutex.Lock()
	defer conn.closeMutex.Unlock()
	if conn.isClosed {
		return nil
	}
''','''	conn.Lock()
	closed := conn.isClosed
	conn.Unlock()
	if closed {
		return nil
	}
	conn.closeMutex.Lock()
	defer conn.closeMutex.Unlock()
'''),(C,'''	conn.isClosed = true
	return nil''','''	conn.Lock()
	conn.isClosed = true
	conn.Unlock()
	return nil'''))
# C04
b('c04-user-clears','C04',(C,'''	defer conn.Unlock()
	conn.user = user
''','''	defer conn.Unlock()
	if len(conn.user) != 0 && conn.user != user {
		conn.schemas = conn.schemas[:0]
	}
	conn.user = user
'''))
# C15
b('c15-index-copy','C15',(SC,'''	schema.indexes = append(slices.Clone(schema.indexes), index)
''','''	schema.indexes = slices.Insert(slices.Clone(schema.indexes), len(schema.indexes)&^63, index)
'''))
b('c15-drop-unicode','C15',(SC,'''		if !strings.EqualFold(column.Name(), name) {
			continue
		}
		schema.columns''','''		if strings.ToUpper(column.Name()) != strings.ToUpper(name) {
			continue
		}
		schema.columns'''))
# C16
b('c16-trailing','C16',(BI,'''	q, err := bindValues(''','''	if len(values) == 0 {
		return sql.NewParser().ParseString(stmt.query)
	}
	q, err := bindValues('''))
