From 2e146c3fc7a903eaee8409678744f71b733a17a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:49 +0000
Subject: [PATCH 01/36] fix: close a connection's transport only once when
 callers overlap

---
 sql/net/conn_impl.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sql/net/conn_impl.go b/sql/net/conn_impl.go
index 40118b6..b52502b 100644
--- a/sql/net/conn_impl.go
+++ b/sql/net/conn_impl.go
@@ -32,6 +32,7 @@ type ConnOption = func(*conn)
 type conn struct {
 	sync.Mutex
 	net.Conn
+	closeMutex    sync.Mutex
 	isClosed      bool
 	db            string
 	schemas       []string
@@ -47,6 +48,7 @@ func NewConnWith(netConn net.Conn, opts ...ConnOption) Conn {
 	conn := &conn{
 		Mutex:         sync.Mutex{},
 		Conn:          netConn,
+		closeMutex:    sync.Mutex{},
 		isClosed:      false,
 		db:            "",
 		schemas:       []string{},
@@ -99,6 +101,8 @@ func WithConnUser(user string) func(*conn) {
 
 // Close closes the connection.
 func (conn *conn) Close() error {
+	conn.closeMutex.Lock()
+	defer conn.closeMutex.Unlock()
 	if conn.isClosed {
 		return nil
 	}
-- 
2.43.0


From 1db480beb77c7a1cf685782573a3d42c49458d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:49 +0000
Subject: [PATCH 02/36] fix: guard the span context of a connection

---
 sql/net/conn_impl.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sql/net/conn_impl.go b/sql/net/conn_impl.go
index b52502b..cd2eadf 100644
--- a/sql/net/conn_impl.go
+++ b/sql/net/conn_impl.go
@@ -187,25 +187,29 @@ func (conn *conn) Context() context.Context {
 
 // SetSpanContext sets the tracer span context of the connection.
 func (conn *conn) SetSpanContext(ctx tracer.Context) {
+	conn.Lock()
+	defer conn.Unlock()
 	conn.tracerContext = ctx
 }
 
 // SpanContext returns the tracer span context of the connection.
 func (conn *conn) SpanContext() tracer.Context {
+	conn.Lock()
+	defer conn.Unlock()
 	return conn.tracerContext
 }
 
 // Span returns the current top tracer span on the tracer span stack.
 func (conn *conn) Span() tracer.Span {
-	return conn.tracerContext.Span()
+	return conn.SpanContext().Span()
 }
 
 // StartSpan starts a new child tracer span and pushes it onto the tracer span stack.
 func (conn *conn) StartSpan(name string) bool {
-	return conn.tracerContext.StartSpan(name)
+	return conn.SpanContext().StartSpan(name)
 }
 
 // FinishSpan ends the current top tracer span and pops it from the tracer span stack.
 func (conn *conn) FinishSpan() bool {
-	return conn.tracerContext.FinishSpan()
+	return conn.SpanContext().FinishSpan()
 }
-- 
2.43.0


From 901e334f4bc48c07ed6241ce2fde86526a88a873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:49 +0000
Subject: [PATCH 03/36] fix: do not share the configured schema list between
 connections

---
 sql/net/conn_impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/net/conn_impl.go b/sql/net/conn_impl.go
index cd2eadf..5b20570 100644
--- a/sql/net/conn_impl.go
+++ b/sql/net/conn_impl.go
@@ -74,7 +74,7 @@ func WithConnDatabase(name string) func(*conn) {
 // WithConnSchemas sets schema names.
 func WithConnSchemas(schemas ...string) func(*conn) {
 	return func(conn *conn) {
-		conn.schemas = schemas
+		conn.schemas = slices.Clone(schemas)
 	}
 }
 
-- 
2.43.0


From 6e582c71a7d4d96c02c6cb7e02268cad975c7e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:50 +0000
Subject: [PATCH 04/36] fix: register a replacement connection under its own
 identifiers

---
 sql/net/conn_manager_impl.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/sql/net/conn_manager_impl.go b/sql/net/conn_manager_impl.go
index 6485602..67edcac 100644
--- a/sql/net/conn_manager_impl.go
+++ b/sql/net/conn_manager_impl.go
@@ -63,17 +63,29 @@ func (cm *mgr) UpdateConn(from Conn, to Conn) error {
 	cm.mutex.Lock()
 	defer cm.mutex.Unlock()
 
-	uuid := from.UUID()
-	if _, ok := cm.m[uuid]; !ok {
-		return newErrConnNotExists(uuid.String())
+	fromUUID := from.UUID()
+	registered, ok := cm.m[fromUUID]
+	if !ok {
+		return newErrConnNotExists(fromUUID.String())
+	}
+	fromUID := from.ID()
+	if registered.ID() != fromUID {
+		return newErrConnNotExists(fmt.Sprintf("%d", fromUID))
+	}
+
+	toUUID := to.UUID()
+	if _, ok := cm.m[toUUID]; ok && toUUID != fromUUID {
+		return newErrConnExist(toUUID.String())
 	}
-	uid := from.ID()
-	if _, ok := cm.uidMap[uid]; !ok {
-		return newErrConnNotExists(fmt.Sprintf("%d", uid))
+	toUID := to.ID()
+	if _, ok := cm.uidMap[toUID]; ok && toUID != fromUID {
+		return newErrConnExist(fmt.Sprintf("%d", toUID))
 	}
 
-	cm.m[uuid] = to
-	cm.uidMap[uid] = to
+	delete(cm.m, fromUUID)
+	delete(cm.uidMap, fromUID)
+	cm.m[toUUID] = to
+	cm.uidMap[toUID] = to
 
 	return nil
 }
-- 
2.43.0


From f8ad543ef870927b2f9b8ec84c2b5d6af44e17ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:13 +0000
Subject: [PATCH 05/36] fix: removing an unregistered connection leaves the
 registered ones alone

---
 sql/net/conn_manager_impl.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sql/net/conn_manager_impl.go b/sql/net/conn_manager_impl.go
index 67edcac..8b910f0 100644
--- a/sql/net/conn_manager_impl.go
+++ b/sql/net/conn_manager_impl.go
@@ -121,6 +121,10 @@ func (cm *mgr) LookupConnByUUID(uuid uuid.UUID) (Conn, bool) {
 func (cm *mgr) RemoveConn(conn Conn) error {
 	cm.mutex.Lock()
 	defer cm.mutex.Unlock()
+	registered, ok := cm.m[conn.UUID()]
+	if !ok || registered.ID() != conn.ID() {
+		return nil
+	}
 	delete(cm.uidMap, conn.ID())
 	delete(cm.m, conn.UUID())
 	return nil
-- 
2.43.0


From 22efb2261a3355740b56d6128b6f6bbe7f908e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:13 +0000
Subject: [PATCH 06/36] fix: remove a connection by its identifier in one step

---
 sql/net/conn_manager_impl.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sql/net/conn_manager_impl.go b/sql/net/conn_manager_impl.go
index 8b910f0..20e3f34 100644
--- a/sql/net/conn_manager_impl.go
+++ b/sql/net/conn_manager_impl.go
@@ -132,20 +132,26 @@ func (cm *mgr) RemoveConn(conn Conn) error {
 
 // RemoveConnByUID deletes the specified connection by the connection ID.
 func (cm *mgr) RemoveConnByUID(cid uint64) {
-	conn, ok := cm.LookupConnByUID(cid)
+	cm.mutex.Lock()
+	defer cm.mutex.Unlock()
+	conn, ok := cm.uidMap[cid]
 	if !ok {
 		return
 	}
-	cm.RemoveConn(conn)
+	delete(cm.uidMap, cid)
+	delete(cm.m, conn.UUID())
 }
 
 // RemoveConnByUID deletes the specified connection by the connection ID.
 func (cm *mgr) RemoveConnByUUID(uuid uuid.UUID) {
-	conn, ok := cm.LookupConnByUUID(uuid)
+	cm.mutex.Lock()
+	defer cm.mutex.Unlock()
+	conn, ok := cm.m[uuid]
 	if !ok {
 		return
 	}
-	cm.RemoveConn(conn)
+	delete(cm.uidMap, conn.ID())
+	delete(cm.m, uuid)
 }
 
 // Start starts the connection manager.
-- 
2.43.0


From 7a1ae2584907322d92856142d69bcbffa044f8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:13 +0000
Subject: [PATCH 07/36] fix: do not carry a syntax error over to the next parse
 of a parser

---
 sql/parser/sqlite/parser_antlr.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sql/parser/sqlite/parser_antlr.go b/sql/parser/sqlite/parser_antlr.go
index 65f7f1e..2fad0c7 100644
--- a/sql/parser/sqlite/parser_antlr.go
+++ b/sql/parser/sqlite/parser_antlr.go
@@ -66,6 +66,7 @@ func (parser *Parser) ParseString(queryString string) ([]query.Statement, error)
 	parser.lexer = antlr.NewSQLiteLexer(parser.inputStream)
 	parser.tokenStream = go_antlr.NewCommonTokenStream(parser.lexer, 0)
 	parser.parser = antlr.NewSQLiteParser(parser.tokenStream)
+	parser.errorListener = newANTLRParserErrorListener()
 	parser.parser.AddErrorListener(parser.errorListener)
 	parser.parser.BuildParseTrees = true
 	tree := parser.parser.Parse()
-- 
2.43.0


From 10b752338db1874835eae688d6e119649bdfdca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:18 +0000
Subject: [PATCH 08/36] fix: give every use of a function its own executor and
 aggregator

A parsed function kept the aggregator it handed out first, so the second
evaluation of a statement went on from the first one's totals, and handing
one out changed the type that the function reports to other users.
---
 sql/fn/func_impl.go | 49 +++++++++++++++++----------------------------
 1 file changed, 18 insertions(+), 31 deletions(-)

diff --git a/sql/fn/func_impl.go b/sql/fn/func_impl.go
index 4c13bf9..b01cdc1 100644
--- a/sql/fn/func_impl.go
+++ b/sql/fn/func_impl.go
@@ -20,11 +20,10 @@ import (
 
 // function represents a function interface.
 type function struct {
-	typ        FunctionType
-	name       string
-	executor   Executor
-	aggregator Aggregator
-	args       Arguments
+	typ      FunctionType
+	name     string
+	executor Executor
+	args     Arguments
 }
 
 // FunctionOption represents a function option function.
@@ -33,11 +32,10 @@ type FunctionOption = func(*function)
 // NewFunction returns a function instance.
 func NewFunction(opts ...FunctionOption) Function {
 	fn := &function{
-		typ:        UnknownFunctionType,
-		name:       "",
-		executor:   nil,
-		aggregator: nil,
-		args:       NewArguments(),
+		typ:      UnknownFunctionType,
+		name:     "",
+		executor: nil,
+		args:     NewArguments(),
 	}
 	for _, opt := range opts {
 		opt(fn)
@@ -49,7 +47,7 @@ func NewFunction(opts ...FunctionOption) Function {
 func WithFunctionName(name string) FunctionOption {
 	return func(fn *function) {
 		fn.SetName(name)
-		t, err := NewFunctionTypeForName(name)
+		t, err := NewFunctionTypeForName(fn.name)
 		if err == nil {
 			fn.typ = t
 		}
@@ -142,29 +140,18 @@ func (fn *function) Executor(opts ...ExecutorOption) (Executor, error) {
 	if fn.executor != nil {
 		return fn.executor, nil
 	}
-	opts = append(opts, WithExecutorArguments(fn.args.Names()))
-	executor, err := NewExecutorForName(fn.name, opts...)
-	if err != nil {
-		return nil, err
-	}
-	fn.executor = executor
-	fn.typ = executor.Type()
-	return fn.executor, nil
+	allOpts := make([]ExecutorOption, 0, len(opts)+1)
+	allOpts = append(allOpts, opts...)
+	allOpts = append(allOpts, WithExecutorArguments(fn.args.Names()))
+	return NewExecutorForName(fn.name, allOpts...)
 }
 
-// Aggregator returns the aggregator of the function.
+// Aggregator returns a new aggregator of the function.
 func (fn *function) Aggregator(opts ...AggregatorOption) (Aggregator, error) {
-	if fn.aggregator != nil {
-		return fn.aggregator, nil
-	}
-	opts = append(opts, WithAggregatorArguments(fn.args.Names()))
-	aggregator, err := NewAggregatorForName(fn.name, opts...)
-	if err != nil {
-		return nil, err
-	}
-	fn.aggregator = aggregator
-	fn.typ = AggregateFunction
-	return fn.aggregator, nil
+	allOpts := make([]AggregatorOption, 0, len(opts)+1)
+	allOpts = append(allOpts, opts...)
+	allOpts = append(allOpts, WithAggregatorArguments(fn.args.Names()))
+	return NewAggregatorForName(fn.name, allOpts...)
 }
 
 // String returns a string representation of the function.
-- 
2.43.0


From cb850ebc4689289b1c0ae1bfa308398f44caf4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:26 +0000
Subject: [PATCH 09/36] fix: copy a column together with its own value

A copied column shared the literal of the original, so setting the copy's
value changed the original, and it lost the original's function.
---
 sql/query/column.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sql/query/column.go b/sql/query/column.go
index 6a7018b..152c2e3 100644
--- a/sql/query/column.go
+++ b/sql/query/column.go
@@ -237,11 +237,12 @@ func (col *column) SetDefinition(dataDef ColumnDef) error {
 
 // Copy returns a copy of the column.
 func (col *column) Copy() Column {
-	return NewColumnWithOptions(
-		WithColumnName(col.name),
-		WithColumnData(col.ColumnDef),
-		WithColumnLiteral(col.Literal),
-	)
+	colCopy := *col
+	if col.Literal != nil {
+		literalCopy := *col.Literal
+		colCopy.Literal = &literalCopy
+	}
+	return &colCopy
 }
 
 // String returns the string representation.
-- 
2.43.0


From d973d2c4a58291ade08aa77cc711f840edf89e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:07 +0000
Subject: [PATCH 10/36] fix: keep the values of all aggregators of a set

The first column of every aggregator but the first was dropped as if it were
the grouping column, also when there is no grouping or more than one grouping
column.
---
 sql/fn/aggr_set.go | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/sql/fn/aggr_set.go b/sql/fn/aggr_set.go
index 4608a1e..fa41583 100644
--- a/sql/fn/aggr_set.go
+++ b/sql/fn/aggr_set.go
@@ -73,15 +73,18 @@ func (aggrSet *AggregatorSet) Finalize() (ResultSet, error) {
 		reseltSets = append(reseltSets, result)
 	}
 
+	// Skip the grouping columns from the second result set as they are already included
+	skipColumns := func(resultSetNo int) int {
+		if resultSetNo == 0 {
+			return 0
+		}
+		groupBys, _ := (*aggrSet)[resultSetNo].GroupBys()
+		return len(groupBys)
+	}
+
 	columns := []string{}
 	for n, resultSet := range reseltSets {
-		switch n {
-		case 0:
-			columns = append(columns, resultSet.Columns()...)
-		default:
-			// Skip the first column as it is already included
-			columns = append(columns, resultSet.Columns()[1:]...)
-		}
+		columns = append(columns, resultSet.Columns()[skipColumns(n):]...)
 	}
 
 	rows := []Row{}
@@ -100,14 +103,10 @@ func (aggrSet *AggregatorSet) Finalize() (ResultSet, error) {
 				if len(rows) <= rowNo {
 					return nil, fmt.Errorf("row %d not found in result set %d", rowNo, resultSetNo)
 				}
-				switch len(row) {
-				case 0:
+				if len(row) == 0 {
 					return nil, fmt.Errorf("row %d is empty in result set %d", rowNo, resultSetNo)
-				case 1:
-					rows[rowNo] = append(rows[rowNo], row[0])
-				default:
-					rows[rowNo] = append(rows[rowNo], row[1:]...) // Skip the first grouping column
 				}
+				rows[rowNo] = append(rows[rowNo], row[skipColumns(resultSetNo):]...)
 			}
 			rowNo++
 		}
-- 
2.43.0


From 118b4d4bbddfe4fb4d967b1430416e88205d830c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:07 +0000
Subject: [PATCH 11/36] fix: group rows that are aggregated as maps

A map row was converted without its grouping columns, so that a grouped
aggregation over a result set always failed.
---
 sql/fn/aggr_impl.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sql/fn/aggr_impl.go b/sql/fn/aggr_impl.go
index b3d71c6..4b7cfb3 100644
--- a/sql/fn/aggr_impl.go
+++ b/sql/fn/aggr_impl.go
@@ -282,6 +282,14 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 // AggregateMap aggregates a map of data using the aggregator.
 func (aggr *aggrImpl) AggregateMap(m map[string]any) error {
 	row := make([]any, 0, len(aggr.columns))
+	groupBys, _ := aggr.GroupBys()
+	for _, groupBy := range groupBys {
+		v, ok := m[groupBy]
+		if !ok {
+			return fmt.Errorf("column (%s) %w in map", groupBy, ErrNotFound)
+		}
+		row = append(row, v)
+	}
 	for _, arg := range aggr.args {
 		var v any
 		var ok bool
-- 
2.43.0


From bb8d03b20cc9532e2b0c0ed705322707504027ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:26 +0000
Subject: [PATCH 12/36] fix: return groups in order of first appearance

The groups came in hash map order, which differs between the aggregators of a
set, so that their values were combined with those of other groups.
---
 sql/fn/aggr_impl.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sql/fn/aggr_impl.go b/sql/fn/aggr_impl.go
index 4b7cfb3..1e1646d 100644
--- a/sql/fn/aggr_impl.go
+++ b/sql/fn/aggr_impl.go
@@ -38,6 +38,7 @@ type aggrImpl struct {
 	counts      int
 	groupBys    []GroupBy
 	groupBySet  GroupBySet
+	groupOrder  []GroupBySet
 	groupKeys   map[GroupBySet][]any
 	groupAggrs  map[GroupBySet][]float64
 	groupCounts map[GroupBySet]int
@@ -59,6 +60,7 @@ func newAggr() *aggrImpl {
 		groupBySet:  GroupBySet(""),
 		aggrs:       make([]float64, 0),
 		counts:      0,
+		groupOrder:  make([]GroupBySet, 0),
 		groupKeys:   make(map[GroupBySet][]any),
 		groupAggrs:  make(map[GroupBySet][]float64),
 		groupCounts: make(map[GroupBySet]int),
@@ -203,6 +205,8 @@ func (aggr *aggrImpl) Reset(opts ...any) error {
 
 	aggr.counts = 0
 
+	aggr.groupOrder = make([]GroupBySet, 0)
+	aggr.groupKeys = make(map[GroupBySet][]any)
 	aggr.groupAggrs = make(map[GroupBySet][]float64)
 	aggr.groupCounts = make(map[GroupBySet]int)
 
@@ -238,6 +242,7 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 			return err
 		}
 		if _, ok := aggr.groupAggrs[groupSetKey]; !ok {
+			aggr.groupOrder = append(aggr.groupOrder, groupSetKey)
 			aggr.groupKeys[groupSetKey] = groupKeys
 			aggr.groupCounts[groupSetKey] = 0
 			aggr.groupAggrs[groupSetKey] = make([]float64, (len(aggr.columns) - groupKeysCnt))
@@ -338,10 +343,9 @@ func (aggr *aggrImpl) Finalize(opts ...any) (ResultSet, error) {
 	rows := make([]Row, 0)
 	_, isGrouping := aggr.GroupBys()
 	if isGrouping {
-		groupSetKeys := make([]GroupBySet, 0, len(aggr.groupAggrs))
-		for groupSetKey := range aggr.groupAggrs {
-			groupSetKeys = append(groupSetKeys, groupSetKey)
-		}
+		// Groups are in order of their first appearance unless the other order is specified
+		groupSetKeys := make([]GroupBySet, len(aggr.groupOrder))
+		copy(groupSetKeys, aggr.groupOrder)
 
 		orderByAscFunc := func(i, j int) bool {
 			groupSetKeyiSlice := aggr.groupKeys[groupSetKeys[i]]
-- 
2.43.0


From 0fdf0094923d8b83af65b826d4c19bece51da70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:53 +0000
Subject: [PATCH 13/36] fix: derive the columns of a row object in a fixed
 order

---
 sql/query/response/resultset/schema_helper.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sql/query/response/resultset/schema_helper.go b/sql/query/response/resultset/schema_helper.go
index b04c021..2396b3f 100644
--- a/sql/query/response/resultset/schema_helper.go
+++ b/sql/query/response/resultset/schema_helper.go
@@ -16,6 +16,7 @@ package resultset
 
 import (
 	"fmt"
+	"sort"
 
 	"github.com/cybergarage/go-sqlparser/sql/query"
 )
@@ -71,9 +72,14 @@ func WithSchemaSelectors(selectors query.Selectors) SchemaOption {
 // WithSchemaRowObject returns a functional option for resultsetSchema.
 func WithSchemaRowObject(rowObj map[string]any) SchemaOption {
 	return func(schema *schema) error {
+		keys := make([]string, 0, len(rowObj))
+		for key := range rowObj {
+			keys = append(keys, key)
+		}
+		sort.Strings(keys)
 		columns := []Column{}
-		for key, value := range rowObj {
-			dataType, err := query.NewDataTypeForValue(value)
+		for _, key := range keys {
+			dataType, err := query.NewDataTypeForValue(rowObj[key])
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 48e4e85609176941060256c39d11d5f673cbfacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:54 +0000
Subject: [PATCH 14/36] fix: report the error of an aggregated result set's
 schema

A selector that the table does not have gave rows without any column instead
of an error.
---
 sql/query/response/resultset/resultset_aggr.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sql/query/response/resultset/resultset_aggr.go b/sql/query/response/resultset/resultset_aggr.go
index de94a3e..d3047f8 100644
--- a/sql/query/response/resultset/resultset_aggr.go
+++ b/sql/query/response/resultset/resultset_aggr.go
@@ -111,11 +111,14 @@ func NewAggregatedResultSetFrom(opts ...AggregatedResultSetOptions) (ResultSet,
 	// Generate a new schema for the aggregated result set
 
 	rsSchema := srcRs.Schema()
-	aggrSchema := NewSchema(
+	aggrSchema, err := NewSchemaFrom(
 		WithSchemaDatabaseName(rsSchema.DatabaseName()),
 		WithSchemaTableSchema(tblSchema),
 		WithSchemaSelectors(selectors),
 	)
+	if err != nil {
+		return nil, err
+	}
 
 	// Generate a new aggregated rows
 
-- 
2.43.0


From 90f5f35863613a4e67b32f2a2d33154a01b6a123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:06 +0000
Subject: [PATCH 15/36] fix: keep an own copy of the group keys

The aggregator kept a part of the caller's row, so that a caller which reuses
its row buffer changed the keys of earlier groups.
---
 sql/fn/aggr_impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/fn/aggr_impl.go b/sql/fn/aggr_impl.go
index 1e1646d..330e89a 100644
--- a/sql/fn/aggr_impl.go
+++ b/sql/fn/aggr_impl.go
@@ -236,7 +236,7 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 	groupBys, isGrouping := aggr.GroupBys()
 	if isGrouping {
 		groupKeysCnt := len(groupBys)
-		groupKeys := row[:groupKeysCnt]
+		groupKeys := append([]any{}, row[:groupKeysCnt]...)
 		groupSetKey, err := NewGroupBySetKey(groupBys, groupKeys)
 		if err != nil {
 			return err
-- 
2.43.0


From ea8d1c76a906e9a68226ae0b25c719ca36e69eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:27 +0000
Subject: [PATCH 16/36] fix: tell group keys apart that contain the delimiter

---
 sql/fn/groupby.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sql/fn/groupby.go b/sql/fn/groupby.go
index 9f9fe7f..ad147a9 100644
--- a/sql/fn/groupby.go
+++ b/sql/fn/groupby.go
@@ -44,6 +44,9 @@ func NewGroupBySet(groupBys ...GroupBy) GroupBySet {
 	return GroupBySet(strings.Join(groupBys, groupByDelimiter))
 }
 
+// groupKeyEscaper escapes the delimiter so that different group keys have different set keys.
+var groupKeyEscaper = strings.NewReplacer("\\", "\\\\", groupByDelimiter, "\\"+groupByDelimiter)
+
 // NewGroupBySetKey creates a GroupBySet from a slice of GroupBy and a slice of group keys.
 func NewGroupBySetKey(groupBys []GroupBy, groupKeys []any) (GroupBySet, error) {
 	if len(groupBys) != len(groupKeys) {
@@ -56,7 +59,7 @@ func NewGroupBySetKey(groupBys []GroupBy, groupKeys []any) (GroupBySet, error) {
 		if err != nil {
 			return "", err
 		}
-		groupBySet = append(groupBySet, NewGroupBy(groupKeyStr))
+		groupBySet = append(groupBySet, NewGroupBy(groupKeyEscaper.Replace(groupKeyStr)))
 	}
 	return NewGroupBySet(groupBySet...), nil
 }
-- 
2.43.0


From a03b4bd95a48f6b9ded96724e245d18a74e8f5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:47 +0000
Subject: [PATCH 17/36] fix: do not write into the caller's aggregator options

Aggregators that are created at the same time from one option list got each
other's functions.
---
 sql/fn/avg.go   | 2 +-
 sql/fn/count.go | 2 +-
 sql/fn/max.go   | 2 +-
 sql/fn/min.go   | 2 +-
 sql/fn/sum.go   | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sql/fn/avg.go b/sql/fn/avg.go
index b722066..d663156 100644
--- a/sql/fn/avg.go
+++ b/sql/fn/avg.go
@@ -38,7 +38,7 @@ func NewAvg(opts ...AvgOption) (*Avg, error) {
 		aggrImpl: newAggr(),
 	}
 
-	opts = append(opts,
+	opts = append(opts[:len(opts):len(opts)],
 		withAggrName("AVG"),
 		withAggrResetFunc(
 			func(aggr *aggrImpl) (float64, error) {
diff --git a/sql/fn/count.go b/sql/fn/count.go
index 928a334..8018800 100644
--- a/sql/fn/count.go
+++ b/sql/fn/count.go
@@ -38,7 +38,7 @@ func NewCount(opts ...CountOption) (*Count, error) {
 		aggrImpl: newAggr(),
 	}
 
-	opts = append(opts,
+	opts = append(opts[:len(opts):len(opts)],
 		withAggrName("COUNT"),
 		withAggrResetFunc(
 			func(aggr *aggrImpl) (float64, error) {
diff --git a/sql/fn/max.go b/sql/fn/max.go
index 302d5ac..3e47a4b 100644
--- a/sql/fn/max.go
+++ b/sql/fn/max.go
@@ -42,7 +42,7 @@ func NewMax(opts ...MaxOption) (*Max, error) {
 		aggrImpl: newAggr(),
 	}
 
-	opts = append(opts,
+	opts = append(opts[:len(opts):len(opts)],
 		withAggrName("MAX"),
 		withAggrResetFunc(
 			func(aggr *aggrImpl) (float64, error) {
diff --git a/sql/fn/min.go b/sql/fn/min.go
index 922ef9d..b63e76f 100644
--- a/sql/fn/min.go
+++ b/sql/fn/min.go
@@ -42,7 +42,7 @@ func NewMin(opts ...MinOption) (*Min, error) {
 		aggrImpl: newAggr(),
 	}
 
-	opts = append(opts,
+	opts = append(opts[:len(opts):len(opts)],
 		withAggrName("MIN"),
 		withAggrResetFunc(
 			func(aggr *aggrImpl) (float64, error) {
diff --git a/sql/fn/sum.go b/sql/fn/sum.go
index e5a6704..4da0773 100644
--- a/sql/fn/sum.go
+++ b/sql/fn/sum.go
@@ -38,7 +38,7 @@ func NewSum(opts ...SumOption) (*Sum, error) {
 		aggrImpl: newAggr(),
 	}
 
-	opts = append(opts,
+	opts = append(opts[:len(opts):len(opts)],
 		withAggrName("SUM"),
 		withAggrResetFunc(
 			func(aggr *aggrImpl) (float64, error) {
-- 
2.43.0


From 600c8e4f40cc1663a3229a69bd93ce71ef949d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:10 +0000
Subject: [PATCH 18/36] fix: do not change a row by reading it

Rows may be shared by result sets that are read at the same time, but reading
one stored the generated object or values in it without synchronization.
---
 sql/query/response/resultset/row_impl.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sql/query/response/resultset/row_impl.go b/sql/query/response/resultset/row_impl.go
index 2901b44..5971a08 100644
--- a/sql/query/response/resultset/row_impl.go
+++ b/sql/query/response/resultset/row_impl.go
@@ -84,7 +84,7 @@ func (row *row) Object() map[string]any {
 			names = append(names, strconv.Itoa((n + 1)))
 		}
 	}
-	row.object = make(map[string]any)
+	object := make(map[string]any)
 	for n, name := range names {
 		var v any
 		if n < len(row.values) {
@@ -92,9 +92,9 @@ func (row *row) Object() map[string]any {
 		} else {
 			v = nil
 		}
-		row.object[name] = v
+		object[name] = v
 	}
-	return row.object
+	return object
 }
 
 // Values returns the row values.
@@ -119,16 +119,16 @@ func (row *row) Values() []any {
 		sort.Strings(keys)
 		names = append(names, keys...)
 	}
-	row.values = []any{}
+	values := []any{}
 	for _, name := range names {
 		v, ok := row.object[name]
 		if ok {
-			row.values = append(row.values, v)
+			values = append(values, v)
 		} else {
-			row.values = append(row.values, nil)
+			values = append(values, nil)
 		}
 	}
-	return row.values
+	return values
 }
 
 // ValueAt returns the row value at the specified index.
-- 
2.43.0


From 3e5415be5c06a427c0bc6a04fedbe8250b34404d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:31 +0000
Subject: [PATCH 19/36] fix: end a result set at its limit

Reading a row after the limit had been reached returned the rows after it, and
offsets near the maximum wrapped around to the first rows.
---
 .../response/resultset/resultset_impl.go      | 23 +++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/sql/query/response/resultset/resultset_impl.go b/sql/query/response/resultset/resultset_impl.go
index 97502d3..dd9ac0c 100644
--- a/sql/query/response/resultset/resultset_impl.go
+++ b/sql/query/response/resultset/resultset_impl.go
@@ -116,23 +116,32 @@ func (rs *resultset) RowsAffected() uint {
 	return rs.rowsAffected
 }
 
+// rowEnd returns the position of the last row of the offset and limit.
+func (rs *resultset) rowEnd() uint {
+	end := uint(len(rs.rows))
+	if (rs.offset < end) && (0 < rs.limit) && (rs.limit < (end - rs.offset)) {
+		return rs.offset + rs.limit
+	}
+	return end
+}
+
 // Next returns the next row.
 func (rs *resultset) Next() bool {
 	if rs.rowCursor < rs.offset {
 		rs.rowCursor = rs.offset
 	}
-	rs.rowCursor++
-	if 0 < rs.limit {
-		if (rs.offset + rs.limit) < rs.rowCursor {
-			return false
-		}
+	end := rs.rowEnd()
+	if end <= rs.rowCursor {
+		rs.rowCursor = end + 1
+		return false
 	}
-	return rs.rowCursor <= uint(len(rs.rows))
+	rs.rowCursor++
+	return true
 }
 
 // Row returns the current row.
 func (rs *resultset) Row() (Row, error) {
-	if (rs.rowCursor == 0) || (uint(len(rs.rows)) < rs.rowCursor) {
+	if (rs.rowCursor == 0) || (rs.rowEnd() < rs.rowCursor) {
 		return nil, errors.ErrNoRows
 	}
 	row := rs.rows[rs.rowCursor-1]
-- 
2.43.0


From e604aaecf7d051a9fd5ea41101362fdad93af0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:45 +0000
Subject: [PATCH 20/36] fix: return no row after the end of an aggregation
 result

---
 sql/fn/resultset_impl.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sql/fn/resultset_impl.go b/sql/fn/resultset_impl.go
index 39e7c72..de66b7b 100644
--- a/sql/fn/resultset_impl.go
+++ b/sql/fn/resultset_impl.go
@@ -57,6 +57,7 @@ func (rs *resultSet) Columns() []string {
 // Next moves to the next row in the result set.
 func (rs *resultSet) Next() bool {
 	if len(rs.rows) <= (rs.index + 1) {
+		rs.index = len(rs.rows)
 		return false
 	}
 	rs.index++
-- 
2.43.0


From 205b684adc2a9b07ed39d6abfa7f85f9ad2eea5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:49 +0000
Subject: [PATCH 21/36] fix: RAND never returns 1

---
 sql/fn/math_func.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sql/fn/math_func.go b/sql/fn/math_func.go
index c1d3cd5..1a6735b 100644
--- a/sql/fn/math_func.go
+++ b/sql/fn/math_func.go
@@ -239,9 +239,9 @@ func NewRand(opts ...ExecutorOption) Executor {
 			if err != nil {
 				return nil, err
 			}
-			// Convert bytes to uint64 and then to float64 in [0.0, 1.0)
+			// Convert 53 bits, which a float64 represents exactly, to float64 in [0.0, 1.0)
 			n := binary.BigEndian.Uint64(b[:])
-			return float64(n&0x7FFFFFFFFFFFFFFF) / float64(0x7FFFFFFFFFFFFFFF), nil
+			return float64(n>>11) / (1 << 53), nil
 		},
 		opts...,
 	)
-- 
2.43.0


From 50d54243c21521e166810255e1f73f3665aa8a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:26 +0000
Subject: [PATCH 22/36] fix: drop the named column and index of a schema

---
 sql/query/schema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sql/query/schema.go b/sql/query/schema.go
index 6b9451a..9530b78 100644
--- a/sql/query/schema.go
+++ b/sql/query/schema.go
@@ -178,7 +178,7 @@ func (schema *schema) AddColumn(column Column) error {
 // DropColumn drops a column by the specified name.
 func (schema *schema) DropColumn(name string) error {
 	for n, column := range schema.columns {
-		if strings.EqualFold(column.Name(), name) {
+		if !strings.EqualFold(column.Name(), name) {
 			continue
 		}
 		schema.columns = append(schema.columns[:n], schema.columns[n+1:]...)
@@ -196,7 +196,7 @@ func (schema *schema) AddIndex(index Index) error {
 // DropIndex drops an index by the specified name.
 func (schema *schema) DropIndex(name string) error {
 	for n, index := range schema.indexes {
-		if strings.EqualFold(index.Name(), name) {
+		if !strings.EqualFold(index.Name(), name) {
 			continue
 		}
 		schema.indexes = append(schema.indexes[:n], schema.indexes[n+1:]...)
-- 
2.43.0


From f06176200804b7612db80a16abb1c54fdad1014d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:42 +0000
Subject: [PATCH 23/36] fix: do not change listings and other schemas when
 altering a schema

---
 sql/query/schema.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sql/query/schema.go b/sql/query/schema.go
index 9530b78..da9a4f8 100644
--- a/sql/query/schema.go
+++ b/sql/query/schema.go
@@ -15,6 +15,7 @@
 package query
 
 import (
+	"slices"
 	"strings"
 
 	"github.com/cybergarage/go-sqlparser/sql/errors"
@@ -171,7 +172,7 @@ func (schema *schema) Alter(stmt AlterTable) error {
 
 // AddColumn adds a column.
 func (schema *schema) AddColumn(column Column) error {
-	schema.columns = append(schema.columns, column)
+	schema.columns = append(slices.Clone(schema.columns), column)
 	return nil
 }
 
@@ -181,7 +182,7 @@ func (schema *schema) DropColumn(name string) error {
 		if !strings.EqualFold(column.Name(), name) {
 			continue
 		}
-		schema.columns = append(schema.columns[:n], schema.columns[n+1:]...)
+		schema.columns = slices.Delete(slices.Clone(schema.columns), n, n+1)
 		return nil
 	}
 	return newErrColumnNotFound(name)
@@ -189,7 +190,7 @@ func (schema *schema) DropColumn(name string) error {
 
 // AddIndex adds an index.
 func (schema *schema) AddIndex(index Index) error {
-	schema.indexes = append(schema.indexes, index)
+	schema.indexes = append(slices.Clone(schema.indexes), index)
 	return nil
 }
 
@@ -199,7 +200,7 @@ func (schema *schema) DropIndex(name string) error {
 		if !strings.EqualFold(index.Name(), name) {
 			continue
 		}
-		schema.indexes = append(schema.indexes[:n], schema.indexes[n+1:]...)
+		schema.indexes = slices.Delete(slices.Clone(schema.indexes), n, n+1)
 		return nil
 	}
 	return newErrIndexNotFound(name)
-- 
2.43.0


From 21bd7f2002b65c7b3b419596420eff8198a52e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:05 +0000
Subject: [PATCH 24/36] fix: leave a schema unchanged when altering it fails

---
 sql/query/schema.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sql/query/schema.go b/sql/query/schema.go
index da9a4f8..6eb9490 100644
--- a/sql/query/schema.go
+++ b/sql/query/schema.go
@@ -129,8 +129,17 @@ func (schema *schema) LookupIndex(name string) (Index, error) {
 	return schema.indexes.LookupIndex(name)
 }
 
-// Alter alters the schema.
+// Alter alters the schema. The schema is unchanged when an error is returned.
 func (schema *schema) Alter(stmt AlterTable) error {
+	columns, indexes := schema.columns, schema.indexes
+	if err := schema.alter(stmt); err != nil {
+		schema.columns, schema.indexes = columns, indexes
+		return err
+	}
+	return nil
+}
+
+func (schema *schema) alter(stmt AlterTable) error {
 	if column, ok := stmt.AddColumn(); ok {
 		err := schema.AddColumn(column)
 		if err != nil {
-- 
2.43.0


From b468536c2f4c92162c644160a84aaa79c757870b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:27 +0000
Subject: [PATCH 25/36] fix: name the column that ALTER TABLE DROP COLUMN drops

---
 sql/parser/sqlite/parser_antlr_visitor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index af451cb..a787c62 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -217,7 +217,7 @@ func newAlterTableWith(ctx antlr.IAlter_table_stmtContext) query.AlterTable {
 		opts = append(opts, query.WithAlterTableAddIndex(index))
 	}
 	if ctx := ctx.Drop_table_column(); ctx != nil {
-		column := query.NewColumnWithOptions(query.WithColumnName(ctx.GetText()))
+		column := query.NewColumnWithOptions(query.WithColumnName(strings.UnEscapeNameString(ctx.Column_name().GetText())))
 		opts = append(opts, query.WithAlterTableDropColumn(column))
 	}
 	tblName := ctx.GetTarget_table_name().GetText()
-- 
2.43.0


From b92e32719f0bf31876ac8b55c85990ff1747ec7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:44 +0000
Subject: [PATCH 26/36] fix: bind parameters only at the placeholders of the
 prepared text

---
 sql/stmt/bind_impl.go | 67 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 56 insertions(+), 11 deletions(-)

diff --git a/sql/stmt/bind_impl.go b/sql/stmt/bind_impl.go
index 553f72c..a4e5272 100644
--- a/sql/stmt/bind_impl.go
+++ b/sql/stmt/bind_impl.go
@@ -16,6 +16,7 @@ package stmt
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 
 	"github.com/cybergarage/go-sqlparser/sql"
@@ -62,22 +63,17 @@ func NewBindStatement(opts ...BindStatementOption) BindStatement {
 
 // Statement returns the statement with the bound parameters.
 func (stmt *bindStmt) Statements() ([]Statement, error) {
-	q := stmt.query
+	values := make([]string, len(stmt.params))
 	for n, param := range stmt.params {
 		s, err := param.String()
 		if err != nil {
 			return nil, err
 		}
-		if 0 < strings.Index(q, stdPlaceholder) {
-			q = strings.Replace(q, stdPlaceholder, s, 1)
-			continue
-		}
-		placeHolder := fmt.Sprintf(pgPlaceholderFormat, n+1)
-		if 0 < strings.Index(q, placeHolder) {
-			q = strings.Replace(q, placeHolder, s, 1)
-			continue
-		}
-		return nil, fmt.Errorf("placeholder (%s/%s) %w: %s", stdPlaceholder, placeHolder, ErrNotFound, s)
+		values[n] = s
+	}
+	q, err := bindValues(stmt.query, values)
+	if err != nil {
+		return nil, err
 	}
 	stmts, err := sql.NewParser().ParseString(q)
 	if err != nil {
@@ -85,3 +81,52 @@ func (stmt *bindStmt) Statements() ([]Statement, error) {
 	}
 	return stmts, nil
 }
+
+// bindValues replaces the placeholders of the query with the values in one pass.
+// Quoted text of the query and the values themselves are never searched for placeholders.
+func bindValues(query string, values []string) (string, error) {
+	var q strings.Builder
+	bound := make([]bool, len(values))
+	next := 0
+	bind := func(n int) bool {
+		if n < 0 || len(values) <= n {
+			return false
+		}
+		q.WriteString(values[n])
+		bound[n] = true
+		return true
+	}
+	for i := 0; i < len(query); {
+		end := i + 1
+		switch c := query[i]; c {
+		case '\'', '"', '`':
+			if n := strings.IndexByte(query[end:], c); 0 <= n {
+				end += n + 1
+			} else {
+				end = len(query)
+			}
+		case '?':
+			if bind(next) {
+				next++
+				i = end
+				continue
+			}
+		case '$':
+			for end < len(query) && '0' <= query[end] && query[end] <= '9' {
+				end++
+			}
+			if n, err := strconv.Atoi(query[i+1 : end]); err == nil && bind(n-1) {
+				i = end
+				continue
+			}
+		}
+		q.WriteString(query[i:end])
+		i = end
+	}
+	for n, ok := range bound {
+		if !ok {
+			return "", fmt.Errorf("placeholder (%s/"+pgPlaceholderFormat+") %w: %s", stdPlaceholder, n+1, ErrNotFound, values[n])
+		}
+	}
+	return q.String(), nil
+}
-- 
2.43.0


From 205579e091a32b71a890223f9b89321858435a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:38 +0000
Subject: [PATCH 27/36] fix: list a column under its own table

---
 sql/system/schema_columns_resutset_from.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/system/schema_columns_resutset_from.go b/sql/system/schema_columns_resutset_from.go
index 1d33666..fc54e68 100644
--- a/sql/system/schema_columns_resutset_from.go
+++ b/sql/system/schema_columns_resutset_from.go
@@ -82,7 +82,7 @@ func NewSchemaColumnsResultSetFromSchemas(schemas []query.Schema) (ResultSet, er
 				case SchemaColumnsSchema:
 					obj[SchemaColumnsSchema] = rsSchema.DatabaseName()
 				case SchemaColumnsTableName:
-					obj[SchemaColumnsTableName] = rsSchema.TableName()
+					obj[SchemaColumnsTableName] = schema.TableName()
 				case SchemaColumnsColumnName:
 					obj[SchemaColumnsColumnName] = column.Name()
 				case SchemaColumnsDataType:
-- 
2.43.0


From b4f7f90aa32d30060c46ceb192a84a67d64f5c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:15 +0000
Subject: [PATCH 28/36] fix: return the minimum also of infinite values

---
 sql/fn/min.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/fn/min.go b/sql/fn/min.go
index b63e76f..4dc955d 100644
--- a/sql/fn/min.go
+++ b/sql/fn/min.go
@@ -46,7 +46,7 @@ func NewMin(opts ...MinOption) (*Min, error) {
 		withAggrName("MIN"),
 		withAggrResetFunc(
 			func(aggr *aggrImpl) (float64, error) {
-				return math.MaxFloat64, nil
+				return math.Inf(1), nil
 			},
 		),
 		withAggrAggreateFunc(
-- 
2.43.0


From f974e5189c0cff009aa7c45dbcdcefb026404e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:16 +0000
Subject: [PATCH 29/36] fix: tell a null group key from an empty one

---
 sql/fn/groupby.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sql/fn/groupby.go b/sql/fn/groupby.go
index ad147a9..efd3ca7 100644
--- a/sql/fn/groupby.go
+++ b/sql/fn/groupby.go
@@ -47,6 +47,9 @@ func NewGroupBySet(groupBys ...GroupBy) GroupBySet {
 // groupKeyEscaper escapes the delimiter so that different group keys have different set keys.
 var groupKeyEscaper = strings.NewReplacer("\\", "\\\\", groupByDelimiter, "\\"+groupByDelimiter)
 
+// groupKeyNull represents a null group key. No escaped group key is equal to it.
+const groupKeyNull = "\\N"
+
 // NewGroupBySetKey creates a GroupBySet from a slice of GroupBy and a slice of group keys.
 func NewGroupBySetKey(groupBys []GroupBy, groupKeys []any) (GroupBySet, error) {
 	if len(groupBys) != len(groupKeys) {
@@ -54,6 +57,10 @@ func NewGroupBySetKey(groupBys []GroupBy, groupKeys []any) (GroupBySet, error) {
 	}
 	groupBySet := []GroupBy{}
 	for _, groupKey := range groupKeys {
+		if groupKey == nil {
+			groupBySet = append(groupBySet, NewGroupBy(groupKeyNull))
+			continue
+		}
 		var groupKeyStr string
 		err := safecast.ToString(groupKey, &groupKeyStr)
 		if err != nil {
-- 
2.43.0


From 231ee0baaca15258ecb13d5907108e9389f15c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:16 +0000
Subject: [PATCH 30/36] fix: order groups that have null keys

---
 sql/fn/aggr_impl.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sql/fn/aggr_impl.go b/sql/fn/aggr_impl.go
index 330e89a..95e550d 100644
--- a/sql/fn/aggr_impl.go
+++ b/sql/fn/aggr_impl.go
@@ -357,6 +357,13 @@ func (aggr *aggrImpl) Finalize(opts ...any) (ResultSet, error) {
 				return false
 			default:
 				for k := range groupSetKeyiSlice {
+					// A null key comes before all others
+					if groupSetKeyiSlice[k] == nil || groupSetKeyjSlice[k] == nil {
+						if groupSetKeyiSlice[k] == nil && groupSetKeyjSlice[k] == nil {
+							continue
+						}
+						return groupSetKeyiSlice[k] == nil
+					}
 					cmp, err := safecast.Compare(groupSetKeyiSlice[k], groupSetKeyjSlice[k])
 					if err != nil {
 						return false // If comparison fails, do not change the order
-- 
2.43.0


From e00dde6baa092e364f400eacdd4ddd1caf8f21a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:04 +0000
Subject: [PATCH 31/36] fix: do not panic on statements that the grammar
 accepts but the parser does not support

---
 sql/parser/sqlite/parser_antlr_visitor.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index a787c62..e0c7662 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -344,8 +344,7 @@ func newIndexSchemaWith(ctx antlr.ICreate_index_stmtContext) query.Schema {
 	indexes := query.NewIndexes()
 	indexColumns := query.NewColumns()
 	for _, columDef := range ctx.AllIndexed_column() {
-		columDef := strings.UnEscapeNameString(columDef.Column_name().GetText())
-		indexColumn := query.NewColumnWithName(columDef)
+		indexColumn := query.NewColumnWithName(newIndexedColumnNameWith(columDef))
 		indexColumns = append(indexColumns, indexColumn)
 	}
 	indexes = append(indexes, query.NewSecondaryIndexWith(idxName, indexColumns))
@@ -411,8 +410,16 @@ func newColumnWith(ctx antlr.IColumn_defContext) (query.Column, bool) {
 	return query.NewColumnWithOptions(opts...), true
 }
 
+// newIndexedColumnNameWith returns the name of the indexed column, or the text of the indexed expression.
+func newIndexedColumnNameWith(ctx antlr.IIndexed_columnContext) string {
+	if name := ctx.Column_name(); name != nil {
+		return strings.UnEscapeNameString(name.GetText())
+	}
+	return ctx.Expr().GetText()
+}
+
 func newIndexedColumnWith(ctx antlr.IIndexed_columnContext) query.Column {
-	name := strings.UnEscapeNameString(ctx.Column_name().GetText())
+	name := newIndexedColumnNameWith(ctx)
 	t, err := query.NewDataDefFrom("", -1) // FIXME
 	if err != nil {
 		t = query.NewUnknownDataDef()
@@ -427,6 +434,9 @@ func newInsertWith(ctx antlr.IInsert_stmtContext) query.Insert {
 	for _, name := range ctx.AllColumn_name() {
 		names = append(names, name.GetText())
 	}
+	if ctx.Values_clause() == nil {
+		return nil // Only rows of values are supported
+	}
 	values := []query.Columns{}
 	for _, row := range ctx.Values_clause().AllValue_row() {
 		columns := query.NewColumns()
@@ -461,6 +471,9 @@ func newUpdateWith(ctx antlr.IUpdate_stmtContext) query.Update {
 	tbl := query.NewTableWith(ctx.GetTable().GetText())
 	columns := query.NewColumns()
 	for _, set := range ctx.AllUpdate_column_set() {
+		if set.Column_name() == nil {
+			return nil // Only single columns are supported
+		}
 		name := set.Column_name().GetText()
 		opts := []query.ColumnOption{
 			query.WithColumnName(name),
-- 
2.43.0


From be1a3905b93a72557739919f4682a4698abc7e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:42 +0000
Subject: [PATCH 32/36] fix: keep quotes in text literals and bound parameters

---
 sql/stmt/bind_param_impl.go | 3 ++-
 sql/util/strings/strings.go | 9 +++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/sql/stmt/bind_param_impl.go b/sql/stmt/bind_param_impl.go
index de618c4..605bc15 100644
--- a/sql/stmt/bind_param_impl.go
+++ b/sql/stmt/bind_param_impl.go
@@ -19,6 +19,7 @@ import (
 	"time"
 
 	"github.com/cybergarage/go-safecast/safecast"
+	"github.com/cybergarage/go-sqlparser/sql/util/strings"
 )
 
 type bindParam struct {
@@ -34,7 +35,7 @@ func NewBindParam(v any) BindParam {
 func (p *bindParam) String() (string, error) {
 	switch v := p.v.(type) {
 	case string:
-		return "'" + v + "'", nil
+		return strings.EscapeString(v), nil
 	case time.Time:
 		if v.Nanosecond() == 0 {
 			return "'" + v.Format("2006-01-02 15:04:05") + "'", nil
diff --git a/sql/util/strings/strings.go b/sql/util/strings/strings.go
index ed6efe7..39a0ecb 100644
--- a/sql/util/strings/strings.go
+++ b/sql/util/strings/strings.go
@@ -31,12 +31,17 @@ func JoinWithComma(elems []string) string {
 
 // UnEscapeString returns an unescaped string.
 func UnEscapeString(s string) string {
-	return strings.Trim(s, "'\"")
+	for _, q := range []string{"'", "\""} {
+		if 2 <= len(s) && strings.HasPrefix(s, q) && strings.HasSuffix(s, q) {
+			return strings.ReplaceAll(s[1:len(s)-1], q+q, q)
+		}
+	}
+	return s
 }
 
 // EscapeString returns an escaped string.
 func EscapeString(s string) string {
-	return fmt.Sprintf("'%v'", s)
+	return fmt.Sprintf("'%v'", strings.ReplaceAll(s, "'", "''"))
 }
 
 // Equal returns true whether the specified strings are equal.
-- 
2.43.0


From ecfb3987e46f2e5745b6101878d78fc6eb4510f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:42 +0000
Subject: [PATCH 33/36] fix: bind a null parameter as NULL

---
 sql/stmt/bind_param_impl.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sql/stmt/bind_param_impl.go b/sql/stmt/bind_param_impl.go
index 605bc15..860cd0e 100644
--- a/sql/stmt/bind_param_impl.go
+++ b/sql/stmt/bind_param_impl.go
@@ -34,6 +34,8 @@ func NewBindParam(v any) BindParam {
 // String returns the string representation of the bind parameter.
 func (p *bindParam) String() (string, error) {
 	switch v := p.v.(type) {
+	case nil:
+		return "NULL", nil
 	case string:
 		return strings.EscapeString(v), nil
 	case time.Time:
-- 
2.43.0


From 14779cc6df969b5d38cc80221a56ae321840b894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:00 +0000
Subject: [PATCH 34/36] fix: do not bind parameters in comments and bracketed
 names

---
 sql/stmt/bind_impl.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/sql/stmt/bind_impl.go b/sql/stmt/bind_impl.go
index a4e5272..f27dc45 100644
--- a/sql/stmt/bind_impl.go
+++ b/sql/stmt/bind_impl.go
@@ -83,7 +83,7 @@ func (stmt *bindStmt) Statements() ([]Statement, error) {
 }
 
 // bindValues replaces the placeholders of the query with the values in one pass.
-// Quoted text of the query and the values themselves are never searched for placeholders.
+// Quoted text and comments of the query and the values themselves are never searched for placeholders.
 func bindValues(query string, values []string) (string, error) {
 	var q strings.Builder
 	bound := make([]bool, len(values))
@@ -98,12 +98,25 @@ func bindValues(query string, values []string) (string, error) {
 	}
 	for i := 0; i < len(query); {
 		end := i + 1
+		endOf := func(delim string) int {
+			if n := strings.Index(query[end:], delim); 0 <= n {
+				return end + n + len(delim)
+			}
+			return len(query)
+		}
 		switch c := query[i]; c {
 		case '\'', '"', '`':
-			if n := strings.IndexByte(query[end:], c); 0 <= n {
-				end += n + 1
-			} else {
-				end = len(query)
+			end = endOf(string(c))
+		case '[':
+			end = endOf("]")
+		case '-':
+			if strings.HasPrefix(query[i:], "--") {
+				end = endOf("\n")
+			}
+		case '/':
+			if strings.HasPrefix(query[i:], "/*") {
+				end++
+				end = endOf("*/")
 			}
 		case '?':
 			if bind(next) {
-- 
2.43.0


From a7844f91c6d645c8a3b4baeceaff2688835046d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:48 +0000
Subject: [PATCH 35/36] fix: bind a byte parameter as a text literal

---
 sql/stmt/bind_param_impl.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sql/stmt/bind_param_impl.go b/sql/stmt/bind_param_impl.go
index 860cd0e..8179a3e 100644
--- a/sql/stmt/bind_param_impl.go
+++ b/sql/stmt/bind_param_impl.go
@@ -38,6 +38,8 @@ func (p *bindParam) String() (string, error) {
 		return "NULL", nil
 	case string:
 		return strings.EscapeString(v), nil
+	case []byte:
+		return strings.EscapeString(string(v)), nil
 	case time.Time:
 		if v.Nanosecond() == 0 {
 			return "'" + v.Format("2006-01-02 15:04:05") + "'", nil
-- 
2.43.0


From d846227eeec3887262534e3299c4484d7b7e4f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:22 +0000
Subject: [PATCH 36/36] fix: order by a column without a direction in ascending
 order

---
 sql/parser/sqlite/parser_antlr_visitor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index e0c7662..ca4aa93 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -543,7 +543,7 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
 			orders := []query.Order{}
 			for _, order := range orderBy {
 				orderColumn := order.Expr().GetText()
-				orderType := query.OrderNone
+				orderType := query.OrderAsc
 				if orderSpec := order.Asc_desc(); orderSpec != nil {
 					orderType = query.NewOrderTypeWith(orderSpec.GetText())
 				}
-- 
2.43.0

