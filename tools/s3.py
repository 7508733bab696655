B=[]
def b(i,p,*e): B.append((i,p,list(e)))
R='sql/query/response/resultset/resultset_impl.go'; W='sql/query/response/resultset/row_impl.go'; RH='sql/query/response/resultset/row_helper.go'
SI='sql/query/response/resultset/schema_impl.go'; T='sql/fn/time_func.go'; M='sql/fn/math_func.go'; S='sql/query/schema.go'; CO='sql/query/columns.go'; IX='sql/query/indexes.go'
BI='sql/stmt/bind_impl.go'; BP='sql/stmt/bind_param_impl.go'; SF='sql/system/schema_columns_resutset_from.go'; SR='sql/system/schema_columns_resutset_impl.go'; SC='sql/system/schema_column_impl.go'; ST='sql/system/schema_columns_stmt_impl.go'
C='sql/net/conn_impl.go'; AT='sql/query/alter_table_from.go'
def imp(f,*pk): return (f,'import (\n','import (\n'+''.join('\t"%s"\n'%p for p in pk))
# C11
b('c11-overflow','C11',(R,'(rs.offset < end) && (0 < rs.limit) && (rs.limit < (end - rs.offset))','(0 < rs.limit) && (rs.offset+rs.limit < end)'))
b('c11-offset-beyond','C11',(R,'	if (rs.offset < end) &&','	if'))
b('c11-row-memo','C11',(R,'	row := rs.rows[rs.rowCursor-1]\n	return NewRowFromObject(rs.schema, row.Object())','''	if rs.current != nil && rs.currentPos == rs.rowCursor {
		return rs.current, nil
	}
	row, err := NewRowFromObject(rs.schema, rs.rows[rs.rowCursor-1].Object())
	if err != nil {
		return nil, err
	}
	rs.current, rs.currentPos = row, rs.rowCursor%8
	return row, nil'''),(R,'	groupBy      string\n}','	groupBy      string\n	current      Row\n	currentPos   uint\n}'))
b('c11-exhausted-rewinds','C11',(R,'		rs.rowCursor = end + 1\n','		rs.rowCursor = 0\n'))
b('c11-exhausted-last-row','C11',(R,'		rs.rowCursor = end + 1\n','''		if rs.offset < end {
			rs.rowCursor = end + 1
		}
'''))
b('c11-row-before-first-offset','C11',(R,'(rs.rowCursor == 0) ||','(rs.rowCursor == 0 && rs.offset == 0) ||'))
b('c11-same-name-passthrough','C11',(RH,'			if executor, err := fx.Executor(); err == nil {','			if v, ok := objMap[fx.Name()]; ok {\n				rowObj[name] = v\n				continue\n			}\n			if executor, err := fx.Executor(); err == nil {'))
b('c11-exec-error-null','C11',(RH,'				if err != nil {\n					return nil, err\n				}\n','				if err != nil {\n					continue\n				}\n'))
b('c11-reuse-rowobj','C11',(RH,'	rowObj := make(map[string]any, 0)\n','	if len(selectors) == len(objMap) {\n		same := true\n		for _, selector := range selectors {\n			_, ok := objMap[selector.Name()]\n			same = same && ok\n		}\n		if same {\n			return NewRow(WithRowSchema(schema), WithRowObject(objMap)), nil\n		}\n	}\n	rowObj := make(map[string]any, 0)\n'))
b('c11-values-cache','C11',(W,'			values = append(values, nil)\n		}\n	}\n	return values','			values = append(values, nil)\n		}\n	}\n	row.values = values\n	return values'))
b('c11-object-cache','C11',(W,'		object[name] = v\n	}\n	return object','		object[name] = v\n	}\n	row.object = object\n	return object'))
b('c11-scan-skips-nil','C11',(W,'		v := values[n]\n','		v := values[n]\n		if n > 2 {\n			v = values[n-1]\n		}\n'))
b('c11-scan-short-ok','C11',(W,'		if len(values) <= n {\n			return errors.ErrNotExist\n		}\n','		if len(values) <= n {\n			return nil\n		}\n'))
b('c11-limit-16','C11',(R,'	rs.rowCursor++\n	return true','	rs.rowCursor++\n	if rs.limit == 0 && rs.rowCursor%128 == 0 && rs.rowCursor < end {\n		rs.rowCursor++\n	}\n	return true'))
b('c11-selectors-shared','C11',(SI,'	selectors := query.NewSelectors()\n	for','	if len(schema.selectors) == len(schema.columns) {\n		return schema.selectors\n	}\n	selectors := query.NewSelectors()\n	for'),(SI,'	return selectors\n}','	schema.selectors = selectors\n	return selectors\n}'),(SI,'	columns     []Column\n	//','	columns     []Column\n	selectors   query.Selectors\n	//'))
# C12
b('c12-cache-ms','C12',(T,'''			return time.Now(), nil
		},
		opts...,
	)
}

// NewNow''','''			return clock(), nil
		},
		opts...,
	)
}

var lastTick atomic.Pointer[time.Time]

// clock returns the current time, never going backward.
func clock() time.Time {
	now := time.Now()
	last := lastTick.Load()
	if last != nil && now.Before(*last) {
		return *last
	}
	lastTick.CompareAndSwap(last, &now)
	return now
}

// NewNow'''),imp(T,'sync/atomic'))
b('c12-trunc','C12',(T,'			return time.Now(), nil','			return time.Now().Truncate(time.Millisecond), nil'))
b('c12-conn-lazy-ts','C12,C04',(C,'func (conn *conn) Timestamp() time.Time {\n','func (conn *conn) Timestamp() time.Time {\n	conn.Lock()\n	defer conn.Unlock()\n	if conn.ts.IsZero() {\n		conn.ts = time.Now()\n	}\n'),(C,'time.Now(),','time.Time{},'))
b('c12-conn-ts-on-user','C12,C04',(C,'	conn.user = user\n}\n\n// User','	conn.user = user\n	conn.ts = time.Now()\n}\n\n// User'))
b('c12-row-eval-cached','C12',(RH,'				value, err := executor.Execute(objMap)\n','				value, ok := objMap[name]\n				if !ok {\n					value, err = executor.Execute(objMap)\n					objMap[name] = value\n				}\n'))
b('c12-start-of-process','C12',(T,'			return time.Now(), nil','			return processStart.Add(time.Since(processStart)), nil'),(T,'// NewCurrentTimestamp returns','var processStart = time.Now()\n\n// NewCurrentTimestamp returns'))
# C13
b('c13-pool-race','C13',(M,'			var b [8]byte\n			_, err := rand.Read(b[:])\n			if err != nil {\n				return nil, err\n			}\n','			b, err := entropy8()\n			if err != nil {\n				return nil, err\n			}\n'),(M,'// NewRand returns','''var entropyPool struct {
	sync.Mutex
	buf [64 * 8]byte
	pos int
}

func entropy8() ([]byte, error) {
	entropyPool.Lock()
	if entropyPool.pos == 0 {
		if _, err := rand.Read(entropyPool.buf[:]); err != nil {
			entropyPool.Unlock()
			return nil, err
		}
	}
	b := entropyPool.buf[entropyPool.pos : entropyPool.pos+8]
	entropyPool.pos = (entropyPool.pos + 8) % len(entropyPool.buf)
	entropyPool.Unlock()
	return b, nil
}

// NewRand returns'''),imp(M,'sync'))
b('c13-pool-no-refill','C13',(M,'			var b [8]byte\n			_, err := rand.Read(b[:])\n			if err != nil {\n				return nil, err\n			}\n			// Convert','			mu.Lock()\n			if pool == nil {\n				pool = make([]byte, 128*8)\n				if _, err := rand.Read(pool); err != nil {\n					mu.Unlock()\n					return nil, err\n				}\n			}\n			b := [8]byte(pool[pos:])\n			pos = (pos + 8) % len(pool)\n			mu.Unlock()\n			// Convert'),(M,'func NewRand(opts ...ExecutorOption) Executor {\n','func NewRand(opts ...ExecutorOption) Executor {\n	var mu sync.Mutex\n	var pool []byte\n	pos := 0\n'),imp(M,'sync'))
b('c13-full-64','C13',(M,'float64(n>>11) / (1 << 53)','float64(n) / (1 << 64)'))
b('c13-54','C13',(M,'float64(n>>11) / (1 << 53)','float64(n>>10) / (1 << 54)'))
b('c13-signed','C13',(M,'float64(n>>11) / (1 << 53)','float64(int64(n)>>11) / (1 << 53)'))
b('c13-maxint','C13',(M,'float64(n>>11) / (1 << 53)','float64(n>>11) / (1<<53 - 1)'))
b('c13-uuid-time','C13,C01',(C,'uuid.New(),','uuid.NewSHA1(uuid.Nil, []byte(time.Now().Format(time.RFC3339Nano))),'))
b('c13-uuid-reseed','C13',(C,'		uuid:          uuid.New(),','		uuid:          newUUID(),'),(C,'// NewConnWith returns','''var uuidSource = rand.New(rand.NewPCG(1, 2))

func newUUID() uuid.UUID {
	var u uuid.UUID
	for n := range u {
		u[n] = byte(uuidSource.Uint32())
	}
	return u
}

// NewConnWith returns'''),imp(C,'math/rand/v2'))
# C15
b('c15-rollback-cols-only','C15',(S,'		schema.columns, schema.indexes = columns, indexes\n','		schema.columns = columns\n'))
b('c15-append-in-place','C15',(S,'append(slices.Clone(schema.columns), column)','append(schema.columns, column)'))
b('c15-append-in-place-idx','C15',(S,'append(slices.Clone(schema.indexes), index)','append(schema.indexes, index)'))
b('c15-delete-in-place','C15',(S,'slices.Delete(slices.Clone(schema.columns), n, n+1)','append(schema.columns[:n:n], schema.columns[n+1:]...)'))
b('c15-delete-in-place2','C15',(S,'slices.Delete(slices.Clone(schema.indexes), n, n+1)','append(schema.indexes[:n], schema.indexes[n+1:]...)'))
b('c15-dropidx-exact','C15',(S,'!strings.EqualFold(index.Name(), name)','index.Name() != name'))
b('c15-drop-all-dups','C15',(S,'		schema.columns = slices.Delete(slices.Clone(schema.columns), n, n+1)\n		return nil','		_ = n\n		schema.columns = slices.DeleteFunc(slices.Clone(schema.columns), func(c Column) bool { return strings.EqualFold(c.Name(), name) })\n		return nil'))
b('c15-dropcol-drops-index','C15',(S,'		schema.columns = slices.Delete(slices.Clone(schema.columns), n, n+1)\n','		schema.columns = slices.Delete(slices.Clone(schema.columns), n, n+1)\n		schema.indexes = slices.DeleteFunc(slices.Clone(schema.indexes), func(i Index) bool { return strings.EqualFold(i.Name(), name) })\n'))
b('c15-rename-ok-silently','C15',(S,'	if _, _, ok := stmt.RenameColumns(); ok {\n		return errors.NewErrNotImplemented(stmt.String())\n	}','	if from, to, ok := stmt.RenameColumns(); ok && from.Name() != to.Name() {\n		return errors.NewErrNotImplemented(stmt.String())\n	}'))
b('c15-lookup-cache','C15',(S,'	return schema.columns.LookupColumn(name)','	if c, ok := schema.cache[strings.ToLower(name)]; ok {\n		return c, nil\n	}\n	c, err := schema.columns.LookupColumn(name)\n	if err == nil {\n		if schema.cache == nil {\n			schema.cache = map[string]Column{}\n		}\n		schema.cache[strings.ToLower(name)] = c\n	}\n	return c, err'),(S,'	indexes Indexes\n}','	indexes Indexes\n	cache   map[string]Column\n}'),(S,'		schema.columns = slices.Delete(slices.Clone(schema.columns), n, n+1)\n','		schema.columns = slices.Delete(slices.Clone(schema.columns), n, n+1)\n		delete(schema.cache, name)\n'))
b('c15-prefix-lookup','C15',(IX,'		if strings.EqualFold(index.Name(), name) {\n			return n, nil','		if len(name) <= len(index.Name()) && strings.EqualFold(index.Name()[:len(name)], name) {\n			return n, nil'))
b('c15-ascii-fold','C15',(CO,'		if std_strings.EqualFold(column.Name(), name) {\n			return column','		if asciiLower(column.Name()) == asciiLower(name) {\n			return column'),(CO,'// Columns represens','''func asciiLower(s string) string {
	return std_strings.Map(func(r rune) rune {
		if 'A' <= r && r <= 'Z' {
			return r + 32
		}
		return r
	}, s)
}

// Columns represens'''))
b('c15-from-dropindex-other','C15',(AT,'			WithAlterTableDropIndex(stmt.Index()),','			WithAlterTableDropIndex(NewIndexWith(stmt.TableName(), UnknownIndex, NewColumns())),'))
b('c15-setschema-writes-back','C15',(CO,'		err = colImpl.SetDefinition(schemaCol.Definition())','		if c, ok := schemaCol.(*column); ok {\n			c.name = col.Name()\n		}\n		err = colImpl.SetDefinition(schemaCol.Definition())'))
b('c15-global-index-cap','C15',(S,'	schema.columns = append(slices.Clone(schema.columns), column)','	if 64 <= len(schema.columns) && strings.EqualFold(schema.columns[0].Name(), column.Name()) {\n		return nil\n	}\n	schema.columns = append(slices.Clone(schema.columns), column)'))
# C16
b('c16-nine','C16',(BI,"			for end < len(query) && '0' <= query[end] && query[end] <= '9' {\n				end++\n			}",'''			if end < len(query) && '0' <= query[end] && query[end] <= '9' {
				end++
			}'''))
b('c16-cache-text','C16',(BI,'	stmts, err := sql.NewParser().ParseString(q)\n	if err != nil {\n		return nil, err\n	}\n','''	if cached, ok := parsed.Load(q); ok {
		return cached.([]Statement), nil
	}
	stmts, err := sql.NewParser().ParseString(q)
	if err != nil {
		return nil, err
	}
	parsed.Store(q, stmts)
'''),(BI,'// Statement returns the statement','var parsed sync.Map\n\n// Statement returns the statement'),imp(BI,'sync'))
b('c16-shared-parser','C16',(BI,'sql.NewParser().ParseString(q)','stmt.parser.ParseString(q)'),(BI,'	params BindParams\n}','	params BindParams\n	parser sql.Parser\n}'),(BI,'		params: []BindParam{},\n','		params: []BindParam{},\n		parser: sql.NewParser(),\n'))
b('c16-values-reused','C16',(BI,'	values := make([]string, len(stmt.params))\n','	if stmt.values == nil {\n		stmt.values = make([]string, len(stmt.params))\n	}\n	values := stmt.values\n'),(BI,'	params BindParams\n}','	params BindParams\n	values []string\n}'))
b('c16-param-error-null','C16',(BI,'		if err != nil {\n			return nil, err\n		}\n		values[n] = s','		if err != nil && s == "" {\n			return nil, err\n		}\n		values[n] = s'))
b('c16-param-error-wrapped-text','C16',(BI,'		if err != nil {\n			return nil, err\n		}\n		values[n] = s','		if err != nil {\n			return nil, fmt.Errorf("parameter %d: %s", n+1, err.Error())\n		}\n		values[n] = s'))
b('c16-param-cache','C16',(BP,'func (p *bindParam) String() (string, error) {\n','func (p *bindParam) String() (string, error) {\n	if p.v == nil {\n		return "NULL", nil\n	}\n'))
b('c16-quoted-double','C16',(BI,"		case '\\'', '\"', '`':","		case '\\'':"))
b('c16-extra-ignored','C16',(BI,'		if !ok {\n			return "",','		if !ok && n == 0 {\n			return "",'))
b('c16-unbound-in-string','C16',(BI,"				end = len(query)\n","				end++\n"))
b('c16-numbered-once','C16',(BI,'		if n < 0 || len(values) <= n {','		if n < 0 || len(values) <= n || (bound[n] && n > 0) {'))
b('c16-value-rescan','C16',(BI,'		q.WriteString(values[n])\n','		q.WriteString(strings.ReplaceAll(values[n], "$$", "$"))\n'))
b('c16-trim-value','C16',(BP,'		return "\'" + v + "\'", nil\n','		return "\'" + strings.TrimSpace(v) + "\'", nil\n'),imp(BP,'strings'))
b('c16-float-fixed','C16',(BP,"strconv.FormatFloat(v, 'g', -1, 64)","strconv.FormatFloat(v, 'f', 6, 64)"))
b('c16-float32','C16',(BP,"strconv.FormatFloat(float64(v), 'g', -1, 32)","strconv.FormatFloat(float64(v), 'g', -1, 64)"))
# C17
b('c17-obj-reused','C17',(SF,'			obj := map[string]any{}\n','			clear(obj)\n'),(SF,'	rows := []resultset.Row{}\n','	rows := []resultset.Row{}\n	obj := map[string]any{}\n'))
b('c17-dedupe','C17',(SF,'		columns = append(columns, column)\n','		if n := len(columns); 0 < n && columns[n-1].Name() == column.Name() && columns[n-1].DataType() == column.DataType() {\n			continue\n		}\n		columns = append(columns, column)\n'))
b('c17-row-error-ends','C17',(SF,'		row, err := rs.Row()\n		if err != nil {\n			return nil, err\n		}','		row, err := rs.Row()\n		if errors.Is(err, io.EOF) {\n			break\n		}\n		if err != nil {\n			return nil, err\n		}'),imp(SF,'errors','io'))
b('c17-row-error-norows-ends','C17',(SF,'		row, err := rs.Row()\n		if err != nil {\n			return nil, err\n		}','		row, err := rs.Row()\n		if err != nil {\n			if errors.Is(err, errors.ErrNoRows) {\n				break\n			}\n			return nil, err\n		}'),imp(SF,'github.com/cybergarage/go-sqlparser/sql/errors'))
b('c17-missing-catalog-default','C17',(SF,'		catalog, err := row.ValueBy(SchemaColumnsCatalog)\n		if err != nil {\n			return nil, err\n		}','		catalog, err := row.ValueBy(SchemaColumnsCatalog)\n		if err != nil {\n			catalog = DefaultSchemaColumnsCatalog\n		}'))
b('c17-unknown-type-skipped','C17',(SF,'		if err != nil {\n			return nil, err\n		}\n		columns = append','		if err != nil {\n			continue\n		}\n		columns = append'))
b('c17-type-unknown-ok','C17',(SC,'		if err != nil {\n			return err\n		}\n		c.dataType = dt','		if err != nil {\n			dt = query.UnknownData\n		}\n		c.dataType = dt'))
b('c17-type-memo','C17',(SC,'		dt, err := query.NewDataTypeFrom(v)\n','		s, isString := v.(string)\n		if dt, ok := types[s]; ok && isString {\n			c.dataType = dt\n			return nil\n		}\n		dt, err := query.NewDataTypeFrom(v)\n'),(SC,'		c.dataType = dt\n		return nil\n	}\n}\n\n// WithColumnConstraint','		c.dataType = dt\n		if isString {\n			types[s] = dt\n		}\n		return nil\n	}\n}\n\nvar types = map[string]DataType{}\n\n// WithColumnConstraint'))
b('c17-partial-with-error','C17',(SF,'		row, err := rs.Row()\n		if err != nil {\n			return nil, err\n		}','		row, err := rs.Row()\n		if err != nil {\n			return NewSchemaColumns(WithColumns(columns)), err\n		}'))
b('c17-tables-by-name','C17',(SF,'	for _, schema := range schemas {\n','	seen := map[string]bool{}\n	for _, schema := range schemas {\n		if seen[schema.TableName()] {\n			continue\n		}\n		seen[schema.TableName()] = len(schema.Columns()) > 0\n'))
b('c17-cap-128','C17',(SF,'	columns := []SchemaColumn{}\n','	columns := make([]SchemaColumn, 0, 128)\n'),(SF,'		columns = append(columns, column)\n','		if len(columns) == cap(columns) {\n			columns = append(columns[:0:0], columns[:len(columns)-1]...)\n		}\n		columns = append(columns, column)\n'))
b('c17-lookup-exact','C17',(SR,'strings.EqualFold(column.Name(), name)','column.Name() == name'))
b('c17-listing-cache','C17',(SF,'	rsSchema, err := NewSchemaColumnsResultSetSchema()\n','	if len(schemas) == 1 {\n		if rows, ok := listings.Load(schemas[0]); ok && len(rows.([]resultset.Row)) == len(schemas[0].Columns()) {\n			rsSchema, err := NewSchemaColumnsResultSetSchema()\n			return resultset.NewResultSet(resultset.WithResultSetSchema(rsSchema), resultset.WithResultSetRows(rows.([]resultset.Row))), err\n		}\n	}\n	rsSchema, err := NewSchemaColumnsResultSetSchema()\n'),(SF,'	rsOpts := ','	if len(schemas) == 1 {\n		listings.Store(schemas[0], rows)\n	}\n	rsOpts := '),(SF,'// NewSchemaColumnsResultSetFromSchemas','var listings sync.Map\n\n// NewSchemaColumnsResultSetFromSchemas'),imp(SF,'sync'))
b('c17-stmt-table-db-swap','C17',(ST,'			case strings.EqualFold(name, SchemaColumnsTableName):','			case strings.EqualFold(name, SchemaColumnsTableName) && value != stmt.dbName:'))
b('c17-stmt-appends-shared','C17',(ST,'	stmt.tblNames = []string{}\n	err :=','	stmt.tblNames = tableNames[:0]\n	err :='),(ST,'type schemaColumnsStatement struct','var tableNames = make([]string, 0, 8)\n\ntype schemaColumnsStatement struct'))
