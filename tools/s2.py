B=[]
def b(i,p,*e): B.append((i,p,list(e)))
P='sql/parser/sqlite/parser_antlr.go'; V='sql/parser/sqlite/parser_antlr_visitor.go'; L='sql/parser/sqlite/parser_antlr_error_listener.go'
def imp(f,*pk): # add imports to parser file
    return (f,'import (\n','import (\n'+''.join('\t"%s"\n'%p for p in pk))
b('c06-literal-intern','C06',(V,'''	return query.NewLiteralWith(ctx.GetText())
}''','''	text := ctx.GetText()
	if l, ok := literals.Load(text); ok {
		return l.(*query.Literal)
	}
	l, _ := literals.LoadOrStore(text, query.NewLiteralWith(text))
	return l.(*query.Literal)
}

var literals sync.Map'''),imp(V,'sync'))
b('c06-literal-intern-unquoted','C06',(V,'''		v := strings.UnEscapeString(ctx.GetText())
		return query.NewLiteralWith(v, query.WithLiteralType(query.StringLiteral))
	}
	return query.NewLiteralWith(ctx.GetText())
}''','''		return internLiteral(strings.UnEscapeString(ctx.GetText()), query.StringLiteral)
	}
	return internLiteral(ctx.GetText(), query.UnknownLiteral)
}

var literals sync.Map

func internLiteral(text string, t query.LiteralType) *query.Literal {
	l, _ := literals.LoadOrStore(text, query.NewLiteralWith(text, query.WithLiteralType(t)))
	return l.(*query.Literal)
}'''),imp(V,'sync'))
b('c06-shared-listener','C06',(P,'''	parser.errorListener = newANTLRParserErrorListener()
	parser.parser.Add''','''	parser.errorListener = sharedListener
	parser.errorListener.done = true
	parser.parser.Add'''),(P,'''// NewParser returns''','''var sharedListener = newANTLRParserErrorListener()

// NewParser returns'''))
b('c06-type-cache-nosize','C06',(V,'''	t, err := query.NewDataDefFromStrings(dataDefs)
	if err != nil {
		t = query.NewUnknownDataDef()
	}

	// Create''','''	t, err := query.NewDataDefFromStrings(dataDefs)
	if err != nil {
		t = query.NewUnknownDataDef()
	}
	if c, ok := defs.LoadOrStore(dataDefs[0], t); ok && err == nil {
		t = c.(query.ColumnDef)
	}

	// Create'''),(V,'''type antlrVisitor struct''','''var defs sync.Map

type antlrVisitor struct'''),imp(V,'sync'))
b('c06-empty-where-shared','C06,C08',(V,'''func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
	sels := query.NewSelectors()
''','''var selBuf = make(query.Selectors, 0, 64)

func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
	sels := selBuf[:0]
'''))
b('c06-pooled-tokens','C06,C07',(P,'''	parser.lexer = antlr.NewSQLiteLexer(parser.inputStream)
''','''	if l, ok := lexers.Get().(*antlr.SQLiteLexer); ok {
		l.SetInputStream(parser.inputStream)
		parser.lexer = l
	} else {
		parser.lexer = antlr.NewSQLiteLexer(parser.inputStream)
	}
	defer lexers.Put(parser.lexer)
'''),(P,'''// NewParser returns''','''var lexers sync.Pool

// NewParser returns'''),imp(P,'sync'))
b('c07-accumulates-on-error','C07',(P,'''	parser.errorListener = newANTLRParserErrorListener()
	parser.parser.Add''','''	if parser.errorListener.done {
		parser.errorListener = newANTLRParserErrorListener()
	}
	parser.parser.Add'''))
b('c07-reuse-slice','C07',(P,'''	parser.stmts = stmtList

''','''	parser.stmts = append(parser.stmts[:0], stmtList...)

'''))
b('c07-reuse-slice-cap','C07',(P,'''	parser.stmts = stmtList

	return parser.stmts, nil''','''	parser.stmts = append(parser.stmts[:0], stmtList...)

	return parser.stmts[:len(stmtList):len(stmtList)], nil'''))
b('c07-listener-kept','C07',(P,'''	parser.errorListener = newANTLRParserErrorListener()
	parser.parser.Add''','''	parser.parser.Add'''))
b('c07-after-16','C07',(P,'''	parser.inputStream = go_antlr.NewInputStream(queryString)
''','''	parser.count++
	if parser.count%24 == 0 && 0 < len(parser.stmts) && parser.errorListener.IsSuccess() {
		return parser.stmts, nil
	}
	parser.inputStream = go_antlr.NewInputStream(queryString)
'''),(P,'''	stmts         query.StatementList
''','''	stmts         query.StatementList
	count         int
'''))
b('c07-trim-cache','C07',(P,'''	parser.inputStream = go_antlr.NewInputStream(queryString)
''','''	if 0 < len(parser.last) && strings.TrimRight(queryString, " ;") == parser.last {
		return parser.stmts, nil
	}
	parser.last = ""
	parser.inputStream = go_antlr.NewInputStream(queryString)
'''),(P,'''	parser.stmts = stmtList

''','''	parser.stmts = stmtList
	parser.last = strings.TrimRight(queryString, " ;")

'''),(P,'''	stmts         query.StatementList
''','''	stmts         query.StatementList
	last          string
'''),imp(P,'strings'))
b('c07-prefix-error','C07',(P,'''	if !parser.errorListener.IsSuccess() {
''','''	if !parser.errorListener.IsSuccess() {
		parser.bad = queryString
'''),(P,'''	parser.inputStream = go_antlr.NewInputStream(queryString)
''','''	if 0 < len(parser.bad) && strings.HasPrefix(queryString, parser.bad) {
		return nil, fmt.Errorf("%s (%w)", queryString, parser.errorListener.GetError())
	}
	parser.inputStream = go_antlr.NewInputStream(queryString)
'''),(P,'''	stmts         query.StatementList
''','''	stmts         query.StatementList
	bad           string
'''),imp(P,'strings'))
F='sql/fn/func_impl.go'; A='sql/fn/aggr_impl.go'; X='sql/fn/executor_impl.go'
b('c08-function-executor-cached','C08',(F,'''	return NewExecutorForName(fn.name, allOpts...)''','''	ex, err := NewExecutorForName(fn.name, allOpts...)
	if err == nil {
		fn.executor = ex
	}
	return ex, err'''))
b('c08-aggregator-cached','C08,C09',(F,'''	return NewAggregatorForName(fn.name, allOpts...)''','''	if fn.aggr == nil {
		aggr, err := NewAggregatorForName(fn.name, allOpts...)
		if err != nil {
			return nil, err
		}
		fn.aggr = aggr
	}
	return fn.aggr, nil'''),(F,'''	executor Executor
	args ''','''	executor Executor
	aggr     Aggregator
	args '''))
b('c08-opts-append','C08',(F,'''	allOpts := make([]ExecutorOption, 0, len(opts)+1)
	allOpts = append(allOpts, opts...)
	allOpts = append(allOpts, WithExecutorArguments(fn.args.Names()))''','''	allOpts := append(opts, WithExecutorArguments(fn.args.Names()))'''))
b('c08-names-cached','C08',('sql/query/selectors.go','''func (selectors Selectors) String() string {
	return strings.JoinWithComma(selectors.Names())''','''var lastNames []string

func (selectors Selectors) String() string {
	lastNames = append(lastNames[:0], selectors.Names()...)
	return strings.JoinWithComma(lastNames)'''))
b('c08-execmap-fills','C08',(X,'''			v = arg
		}''','''			v = arg
			m[arg] = v
		}'''))
b('c08-args-uppercased','C08',(X,'''	for _, arg := range ex.args {
		v, ok := m[arg]
		if !ok {
			v = arg
		}''','''	for n, arg := range ex.args {
		v, ok := m[arg]
		if !ok {
			arg = strings.Trim(arg, "'")
			ex.args[n] = arg
			v = arg
		}'''),imp(X,'strings'))
b('c08-columns-copy-shallow','C08',('sql/query/columns.go','''		cpColums[n] = col.Copy()''','''		if col.HasValue() {
			cpColums[n] = col.Copy()
		} else {
			cpColums[n] = col
		}'''))
b('c08-copy-literal-null','C08',('sql/query/column.go','''	if col.Literal != nil {
		literalCopy''','''	if col.Literal != nil && col.Literal.t == StringLiteral {
		literalCopy'''))
b('c08-sort-args','C08',('sql/fn/args.go','''	names := make([]string, len(args))
	for n, arg := range args {
		names[n] = arg.Name()
	}
	return names''','''	names := make([]string, len(args))
	for n := range args {
		args[n] = Argument(strings.TrimSpace(string(args[n])))
		names[n] = args[n].Name()
	}
	return names'''),('sql/fn/args.go','''	"github.com/cybergarage/go-sqlparser/sql/util/strings"
''','''	std_strings "strings"

	"github.com/cybergarage/go-sqlparser/sql/util/strings"
'''),('sql/fn/args.go','Argument(strings.TrimSpace','Argument(std_strings.TrimSpace'))
b('c09-min-zero','C09',('sql/fn/min.go','''math.MaxFloat64''','''math.MaxInt64'''))
b('c09-max-neg','C09',('sql/fn/max.go','''math.Inf(-1)''','''-math.MaxInt64'''))
b('c09-float32','C09',('sql/fn/sum.go','''return accumulatedValue + inputValue, nil''','''return float64(float32(accumulatedValue) + float32(inputValue)), nil'''))
b('c09-avg-running','C09',('sql/fn/avg.go','''				return accumulatedValue / float64(accumulatedCount), nil''','''				return float64(int64(accumulatedValue*1000)) / 1000 / float64(accumulatedCount), nil'''))
b('c09-group-trim','C09,C10',('sql/fn/groupby.go','''NewGroupBy(groupKeyEscaper.Replace(groupKeyStr))''','''NewGroupBy(groupKeyEscaper.Replace(strings.TrimSpace(groupKeyStr)))'''))
b('c09-group-fold','C09,C10',('sql/fn/groupby.go','''NewGroupBy(groupKeyEscaper.Replace(groupKeyStr))''','''NewGroupBy(groupKeyEscaper.Replace(strings.ToLower(groupKeyStr)))'''))
b('c09-group-long','C09,C10',('sql/fn/groupby.go','''NewGroupBy(groupKeyEscaper.Replace(groupKeyStr))''','''NewGroupBy(fmt.Sprintf("%.24s", groupKeyEscaper.Replace(groupKeyStr)))'''))
b('c09-group-noescape','C09,C10',('sql/fn/groupby.go','''NewGroupBy(groupKeyEscaper.Replace(groupKeyStr))''','''NewGroupBy(groupKeyStr)'''))
b('c09-partial-row','C09',(A,'''			fv, err := toFloat64(rv)
			if err != nil {
				return fmt.Errorf("[%d] %w row : %w", n+1, ErrInvalid, err)
			}''','''			fv, err := toFloat64(rv)
			if err != nil {
				continue
			}'''))
b('c09-reset-keeps-groups','C09',(A,'''	aggr.groupAggrs = make(map[GroupBySet][]float64)
	aggr.groupCounts = make(map[GroupBySet]int)

	return nil''','''	aggr.groupAggrs = make(map[GroupBySet][]float64)
	for key := range aggr.groupCounts {
		aggr.groupCounts[key] = 0
	}

	return nil'''))
b('c09-skip-count','C09',(A,'''		aggr.groupCounts[groupSetKey]++
''','''		if 0 < len(row[groupKeysCnt:]) && (row[groupKeysCnt] != nil || aggr.args[0] == "*") {
			aggr.groupCounts[groupSetKey]++
		}
'''))
b('c09-row-limit','C09',('sql/query/response/resultset/resultset_aggr.go','''	for srcRs.Next() {
		row, err''','''	n := uint(0)
	for srcRs.Next() {
		n++
		if lim, ok := srcRs.(interface{ Limit() uint }); ok && 0 < lim.Limit() && lim.Limit() < n {
			break
		}
		row, err'''))
b('c09-batch-100','C09',('sql/query/response/resultset/resultset_aggr.go','''	for srcRs.Next() {
		row, err := srcRs.Row()
		if err != nil {
			return nil, err
		}
		err = aggrSet.Aggregate(row.Object())
		if err != nil {
			return nil, err
		}
	}
''','''	batch := make([]map[string]any, 0, 64)
	flush := func() error {
		for _, obj := range batch {
			if err := aggrSet.Aggregate(obj); err != nil {
				return err
			}
		}
		batch = batch[:0]
		return nil
	}
	for srcRs.Next() {
		row, err := srcRs.Row()
		if err != nil {
			return nil, err
		}
		if len(batch) == cap(batch) {
			if err := flush(); err != nil {
				return nil, err
			}
			continue
		}
		batch = append(batch, row.Object())
	}
	if err := flush(); err != nil {
		return nil, err
	}
'''))
b('c09-batch-32-reuse','C09',('sql/query/response/resultset/resultset_aggr.go','''	for srcRs.Next() {
		row, err := srcRs.Row()
		if err != nil {
			return nil, err
		}
''','''	failures := 0
	for srcRs.Next() {
		row, err := srcRs.Row()
		if err != nil {
			failures++
			if failures < 2 && srcRs.Next() {
				continue
			}
			return nil, err
		}
'''))
b('c10-type-prefix','C10',('sql/query/data_type.go','''		if dataTypeString == us {
			return dataType, nil
		}
		dataTypeString = strings''','''		if dataTypeString == us || strings.HasPrefix(us, dataTypeString+" ") {
			return dataType, nil
		}
		dataTypeString = strings'''))
b('c10-aggrset-merge-order','C10',(A,'''		groupSetKeys := make([]GroupBySet, len(aggr.groupOrder))
		copy(groupSetKeys, aggr.groupOrder)
''','''		groupSetKeys := make([]GroupBySet, 0, len(aggr.groupOrder))
		for groupSetKey := range aggr.groupAggrs {
			groupSetKeys = append(groupSetKeys, groupSetKey)
		}
'''))
b('c10-schema-unsorted','C10',('sql/query/response/resultset/schema_helper.go','''		sort.Strings(keys)
''','''		sort.Slice(keys, func(i, j int) bool { return strings.ToLower(keys[i]) < strings.ToLower(keys[j]) })
'''),imp('sql/query/response/resultset/schema_helper.go','strings'))
b('c10-desc-ties','C10',(A,'''			return !orderByAscFunc(i, j)''','''			return orderByAscFunc(i, j)'''))
b('c10-order-first-key','C10',(A,'''				for k := range groupSetKeyiSlice {
					cmp''','''				for k := range groupSetKeyiSlice[:1] {
					cmp'''))
