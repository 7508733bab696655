import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d["anchors"]["hook_needed"]=None
    P.append(d)

p("C01","Connection registry is linearizable and its views agree",
"Concurrent registrations, replacements, removals, lookups and listings of connections behave as if executed one at a time in an order consistent with real time, without data races. Registering fails with the already-exists error exactly when a registered connection has the same UUID or the same numeric ID; replacing fails with the not-exists error when the replaced connection is not registered, with the already-exists error when the replacement's UUID or ID belongs to another registered connection, and otherwise atomically makes only the replacement reachable, under its own UUID and ID; removal takes the connection out under both identifiers, and removing something that is not registered changes nothing. Lookup by UUID, lookup by ID and the listing always describe the same set of connections.",
["schedules","histories"],"all interleavings of any number of callers and all histories of registry operations, including repeated UUIDs and IDs",
"There is no test for the net package at all; a unit test would fix one order of calls, while the guarantee is about every interleaving and every history.",
["sql/net/conn_manager_impl.go","sql/net/conn_manager.go","sql/net/errors.go"],
[("one reader/writer lock over both indices","sql/net/conn_manager_impl.go"),("existence checks on both keys before insertion","AddConn/UpdateConn in sql/net/conn_manager_impl.go")],
["ConnManager.AddConn/UpdateConn/RemoveConn*/LookupConnBy*/Conns return values"],
[("uuid index","registered connections by UUID","mgr.m"),("id index","registered connections by numeric ID","mgr.uidMap")])

p("C02","Shutting the registry down closes every connection despite failing closes",
"Closing or stopping the connection registry attempts to close every connection registered when it starts, even if closing some of them fails: each one whose close succeeds is no longer registered afterwards, each one whose close failed stays registered, and the returned error reports every failure and is nil exactly when there was none. A shutdown never unregisters a connection that has not been closed, whatever registrations, replacements and removals run at the same time. Once transports stop failing, shutting down again leaves the registry empty with every connection closed.",
["schedules","fault_sequences","histories"],"all interleavings of shutdowns with registry operations and individual closes, and all sequences of transport close failures",
"No test covers it; it depends on which closes fail and on what other callers do between the steps of the shutdown.",
["sql/net/conn_manager_impl.go","sql/net/conn_impl.go"],
[("snapshot, close each, unregister on success, join errors","mgr.Close in sql/net/conn_manager_impl.go")],
["ConnManager.Close/Stop result, registry content and transport state afterwards"])

p("C03","A connection closes its transport exactly once",
"However many callers close a connection and however their calls overlap, its transport is closed successfully at most once and is never closed again after that. A close call reports success only if the transport is closed, reports the transport's own error otherwise, and a failed close can be retried until it succeeds. Closing is race-free, never waits for a blocked read or write, and leaves the connection's identity and session attributes readable.",
["schedules","fault_sequences"],"all interleavings of concurrent closers with other connection operations, and all sequences of transport close failures",
"No test closes a connection, let alone concurrently or with a transport that fails.",
["sql/net/conn_impl.go"],[("closed flag checked before and set after the transport close","conn.Close in sql/net/conn_impl.go")],
["Conn.Close results and calls seen by the underlying net.Conn"],[("closed flag","transport closed successfully","conn.isClosed")])

p("C04","Session attributes are atomic, isolated per connection and race-free",
"The user, database, schema list and span context of a connection behave as an atomic object under concurrent access: every read returns a state produced by some order of the updates consistent with real time, setting the database clears the schema list in the same step, and adding schemas appends only names not yet present, in order. A returned schema list is the caller's own copy, and nothing done to one connection, nor to the values used to configure it, changes what another connection reports. The connection's UUID, numeric ID and creation time never change.",
["schedules","histories"],"all interleavings of setters and getters on any number of connections, and all histories",
"No test exercises connection attributes; atomicity and isolation are claims about interleavings and aliasing.",
["sql/net/conn_impl.go","sql/net/conn.go"],[("per-connection mutex around attributes; copy on read","sql/net/conn_impl.go")],
["Conn getters"],[("attributes","user, db, schemas, tracer context","conn struct")])

p("C05","A connection is a transparent wrapper around its transport",
"Bytes, counts, errors, deadlines and addresses pass through a connection unchanged: every read and write returns exactly what the transport returned for that call, including short transfers, partial failures, end of stream and timeouts, and no byte is lost, duplicated, reordered or delayed. Reading, writing and closing are independent of one another, so a blocked read never delays a write, a session attribute access or a close. After a transport fault the next call reaches the transport again rather than a remembered outcome.",
["schedules","fault_sequences","histories"],"all interleavings of readers, writers and closers and all sequences of transport faults",
"No test sends a byte through a connection or makes a transport misbehave.",
["sql/net/conn_impl.go"],[("embedding of the underlying net.Conn","conn struct in sql/net/conn_impl.go")],
["net.Conn calls and results on both sides of the wrapper"])

p("C06","Independent parsers do not influence each other",
"Any number of parsers used at the same time, each by its own caller, produce for every input exactly the statements or error that the same input produces in a single fresh parser, and never race, block or panic each other. This includes the very first parses of a process and parses that fail. What a parsed statement means is decided by its SQL text alone, irrespective of what other parsers are doing.",
["schedules","inputs","histories"],"all interleavings of parsers over valid and malformed statements of every supported kind",
"Tests parse one statement at a time from one goroutine; shared lazily built tables and caches only matter when parsers overlap.",
["sql/parser/sqlite/parser_antlr.go","sql/parser/sqlite/parser_antlr_visitor.go","sql/parser/sqlite/antlr/sqlite_parser.go","sql/parser_impl.go"],
[("all parse state is per parser; shared static tables initialised once","sql/parser/sqlite/parser_antlr.go, generated lexer and parser")],
["ParseString results"])

p("C07","A reused parser's answers do not depend on its history",
"A parser that is used again and again answers every input exactly as a fresh parser would, no matter which inputs it saw before: after a malformed, empty or unsupported input it still accepts valid statements, and after valid statements it still rejects malformed ones. Statements it returned earlier keep their meaning when it parses something else.",
["histories","inputs","fault_sequences"],"all histories of valid, malformed and empty inputs on one parser, including a parser handed from one caller to another",
"Tests create a parser and mostly feed it valid input; the claim is about every sequence of good and bad inputs.",
["sql/parser/sqlite/parser_antlr.go","sql/parser/sqlite/parser_antlr_error_listener.go"],
[("streams rebuilt per parse; error state must be per parse","ParseString in sql/parser/sqlite/parser_antlr.go")],
["ParseString results"])

p("C08","Parsed statements can be shared: executing one changes nothing others see",
"A parsed statement may be inspected, printed and executed repeatedly and by many callers at once without data races, and each caller obtains exactly what it would obtain as the only user of a freshly parsed copy. Executing a scalar or aggregate function of a statement never changes what the statement reports about itself, and accumulations of different executions never mix. Changing a copy of a column never changes the original.",
["schedules","histories"],"all interleavings and histories of inspections and executions of shared statements, including executions that fail midway",
"Tests execute each statement once; sharing defects need a second execution, interleaved or after a failed one.",
["sql/fn/func_impl.go","sql/fn/aggr_impl.go","sql/query/selectors_helper.go","sql/query/select_helper.go","sql/query/column.go"],
[("function objects hand out executors and aggregators","sql/fn/func_impl.go"),("column copying","sql/query/column.go")],
["Selectors/Executors/Aggregators results, String()"])

p("C09","Aggregating a row stream is exact, or fails cleanly with the source's error",
"Aggregating a result set reads the source's rows once each, in order, until the end, and returns for every requested aggregate - sum, average, minimum, maximum, count, optionally per group - the value defined by all of those rows. If the source fails on a row or a row cannot be aggregated, the aggregation returns that error and no result. A failed aggregation leaves nothing behind: running the same statement again over a healthy source gives the exact answer.",
["fault_sequences","histories","inputs"],"all row streams, all positions and sequences of source failures and malformed rows, and all re-executions afterwards",
"Tests aggregate a handful of in-memory rows and never make a source fail; none aggregates several functions per group through a result set.",
["sql/query/response/resultset/resultset_aggr.go","sql/fn/aggr_impl.go","sql/fn/aggr_set.go","sql/fn/sum.go","sql/fn/avg.go","sql/fn/min.go","sql/fn/max.go","sql/fn/count.go"],
[("read loop with error propagation","NewAggregatedResultSetFrom"),("per-group accumulators","sql/fn/aggr_impl.go")],
["aggregated ResultSet content or error; calls seen by the source ResultSet"])

p("C10","Results never depend on hash-map iteration order",
"Whatever order the runtime iterates hash maps in, the same inputs give the same results: grouped aggregates pair every group with its own values for all aggregate functions, ordering requests are honoured, a row's values and a schema derived from a row have one fixed order, and data type names resolve to the same type. Grouped results are also independent of the arrival order of the rows, up to the order of the groups.",
["configurations","inputs","histories"],"all map iteration orders and all row arrival orders",
"The iteration order is random per run; a test sees one order and passes by luck or fails flakily, as for several aggregates per group.",
["sql/fn/aggr_impl.go","sql/fn/aggr_set.go","sql/query/response/resultset/row_impl.go","sql/query/response/resultset/schema_helper.go","sql/query/data_type.go"],
[("explicit ordering where maps are iterated","sql/fn/aggr_set.go, sql/query/response/resultset/schema_helper.go")],
["ResultSet rows, Row.Values, Schema.Columns"])

p("C11","A result cursor yields exactly the requested window, once, in order",
"Iterating a result set yields exactly the rows selected by its offset and limit, each once and in order, with the values, projections and computed columns that its schema defines. Reading the current row repeatedly does not advance the cursor; before the first and after the last row of the window reading fails with the no-rows error, and an exhausted cursor stays exhausted. Any number of cursors over the same rows, used at the same time, are independent and race-free.",
["schedules","histories","inputs"],"all interleavings of cursors over shared rows, all call histories on a cursor and all offsets and limits",
"Tests iterate a few result sets straight through with one cursor; windows, misuse histories and shared rows are not sampled.",
["sql/query/response/resultset/resultset_impl.go","sql/query/response/resultset/row_impl.go","sql/query/response/resultset/row_helper.go"],
[("row counter compared with offset, limit and length","Next/Row in resultset_impl.go"),("row views derived from the stored object or values","row_impl.go")],
["ResultSet.Next/Row, Row.Values/Object/ValueAt/ValueBy/Scan"])

p("C12","Time functions and timestamps read the clock when they are evaluated",
"Evaluating a current-time function returns the wall clock at some moment between the start and the end of that evaluation, also when the statement was parsed long before, evaluated before, shared between callers, or the clock jumped forward or backward in between. A connection's creation time is the clock reading at its creation and does not change afterwards.",
["schedules","histories","configurations"],"all interleavings, delays and clock jumps between preparation and evaluation",
"Tests compare against the real clock within one instant; they cannot delay, jump or interleave it.",
["sql/fn/time_func.go","sql/net/conn_impl.go"],[("clock read inside the function body","sql/fn/time_func.go"),("clock read in the constructor","NewConnWith")],
["Executor.Execute result, Conn.Timestamp"])

p("C13","Random values and identities are in range and unique for any entropy",
"For every output of the system's random source, including the extreme bit patterns, the random function returns a number in [0,1) that is computed from fresh entropy at each evaluation, so that statements and callers never share or replay a value. Connections created from distinct entropy have distinct identities, concurrently or not.",
["configurations","schedules","histories"],"all entropy streams and all interleavings of evaluations and connection creations",
"The real random source never delivers the extreme patterns in a test, and a test cannot tell fresh from replayed values.",
["sql/fn/math_func.go","sql/net/conn_impl.go"],[("entropy to float conversion","NewRand in sql/fn/math_func.go"),("UUID per connection","NewConnWith")],
["Executor.Execute result, Conn.UUID"])

p("C14","A multi-session SQL service built on the library serves like a sequential one",
"In a service assembled from the library's parser, connections, registry, schemas, result sets and functions, every statement a session receives an answer for gets the answer that a sequential reference service gives in some order of the sessions' statements consistent with real time. Fragmented, truncated, reset or delayed transports, malformed statements and disconnecting clients never corrupt another session's state or answers, and a disconnected session is gone from the registry. Once faults stop, every connected session is served within a bounded number of steps.",
["schedules","fault_sequences","histories"],"all interleavings of sessions, all transport fault sequences and all statement histories of the supported subset",
"No test assembles the parts; interactions across sessions, faults and long-lived parsers are out of reach of per-package tests.",
["sql/parser/sqlite/parser_antlr.go","sql/net/conn_manager_impl.go","sql/net/conn_impl.go","sql/query/schema.go","sql/query/response/resultset/resultset_impl.go","sql/query/response/resultset/resultset_aggr.go","sql/system/schema_columns_resutset_from.go"],
[("composition of all packages","sql/")],["bytes received by clients, registry content"])

p("C15","A table schema reflects exactly the alterations applied to it",
"After any history of column and index additions and removals, requested by statements or directly, a schema holds exactly the columns and indexes that the history leaves, in order of addition; lookups by name are case-insensitive and agree with the listings. An alteration that fails - an unknown name, an unsupported alteration - reports an error and changes nothing. Altering one schema never changes another schema or a listing obtained earlier.",
["histories","fault_sequences","schedules"],"all histories of successful and failing alterations on any number of schemas, interleaved between sessions",
"Tests apply at most a few alterations to one schema; the claim is about every history and about what failing steps leave behind.",
["sql/query/schema.go","sql/query/columns.go","sql/query/indexes.go","sql/query/alter_table.go","sql/query/alter_table_from.go"],
[("ordered column and index lists","sql/query/schema.go")],["Schema.Columns/Indexes/LookupColumn/LookupIndex/Alter"])

p("C16","Prepared statements bind each execution's own parameters, or fail cleanly",
"Executing a prepared statement yields exactly the statement obtained by writing its current parameters as literals at their placeholders, for both placeholder styles, independently of earlier, failed or concurrent executions of the same prepared statement. A parameter that fails to convert makes that execution fail with the parameter's own error and produces no statement. Prepared statements sharing text or parameter lists never influence each other.",
["schedules","fault_sequences","histories"],"all interleavings and histories of executions and all positions of failing parameters",
"Tests bind each statement once with healthy parameters.",
["sql/stmt/bind_impl.go","sql/stmt/bind_param_impl.go"],[("substitution on a private copy of the text, new parser per execution","Statements in sql/stmt/bind_impl.go")],
["BindStatement.Statements"])

p("C17","Catalog listings carry every column of every table exactly once, or fail",
"Listing the columns of a set of tables yields one entry per column, in table and column order, each naming its own table, column and data type; reading such a listing from any row source gives back exactly its entries in order. If the source fails or a row is malformed, reading returns that error and no listing. Listings taken while schemas are altered or by several sessions at once are those of a single moment per session and never mix.",
["fault_sequences","histories","schedules"],"all catalogs, all positions of source failures and all interleavings of listings",
"Tests list fixed schemas once from a healthy source.",
["sql/system/schema_columns_resutset_from.go","sql/system/schema_columns_resutset_impl.go","sql/system/schema_column_impl.go","sql/system/schema_columns_stmt_impl.go"],
[("row per column; error propagation in the read loop","sql/system/schema_columns_resutset_from.go")],["SchemaColumnsResultSet.Columns, ResultSet rows"])

# pure properties: not applicable to the technique
pure="A unit test samples a few inputs of a pure function over an unbounded input space."
p("P01","Printing a parsed statement and parsing it again preserves its meaning",
"For every supported statement, the text printed from the parsed form parses again to a statement with the same meaning.",
["inputs","programs"],"all supported SQL statements",pure,["sql/query","sql/parser/sqlite/parser_antlr_visitor.go"],[("String methods and visitor agree","sql/query")])
p("P02","The parser answers any text with statements or an error, never a crash",
"For every input string the parser returns statements or an error and never panics or loops forever.",
["inputs"],"all strings",pure,["sql/parser/sqlite/parser_antlr.go","sql/parser/sqlite/parser_antlr_visitor.go"],[("error listener and nil checks in the visitor","sql/parser/sqlite")])
p("P03","A bound parameter is always read back as one literal with its value",
"Whatever characters a bound parameter value contains, it is substituted as a single literal that parses back to that value.",
["inputs"],"all parameter values",pure,["sql/stmt/bind_impl.go","sql/stmt/bind_param_impl.go"],[("quoting of values","sql/stmt/bind_param_impl.go")])
p("P04","Scalar functions and operators compute their mathematical definition",
"Every math, string and arithmetic function returns its defined value for arguments in its domain and an error outside it.",
["inputs"],"all argument values",pure,["sql/fn/math_func.go","sql/fn/string_func.go","sql/fn/arith_func.go"],[("function bodies","sql/fn")])
p("P05","Column values are coerced to their declared type without loss or report an error",
"Assigning a value to a typed column either stores the same value in that type or fails.",
["inputs"],"all values and column types",pure,["sql/query/column.go"],[("typed conversion on assignment","sql/query/column.go")])
p("P06","Error codes and classes map to each other as the SQL standard defines",
"Every SQL error code belongs to exactly the class that its prefix denotes and renders its standard name.",
["inputs"],"all codes",pure,["sql/errors/code.go","sql/errors/class.go"],[("code tables","sql/errors")])
p("P07","A parsed statement carries every clause of its text, or parsing fails",
"For every input the grammar accepts, each condition, assignment, value, name and modifier of the text is present in the parsed statement, or the parser reports an error.",
["inputs"],"all accepted texts",pure,["sql/parser/sqlite/parser_antlr_visitor.go"],[("conversion of the syntax tree","sql/parser/sqlite/parser_antlr_visitor.go")])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
