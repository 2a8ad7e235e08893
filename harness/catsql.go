package main

import (
	"context"
	"database/sql"
	"fmt"
	"regexp"
	"strings"

	sqlite3 "github.com/mattn/go-sqlite3"
)

// Emulated catalog views: the SELECTs a tool sends to information_schema,
// pg_catalog or sys run, after small dialect rewrites, on SQLite tables filled
// from the schema state.

type catdb struct {
	db *sql.DB
	cn *sql.Conn
}

func newCat(attach []string) *catdb {
	db, err := sql.Open("sqlite3", ":memory:")
	if err != nil {
		die("%v", err)
	}
	db.SetMaxOpenConns(1)
	cn, err := db.Conn(context.Background())
	if err != nil {
		die("%v", err)
	}
	c := &catdb{db, cn}
	for _, a := range attach {
		c.exec("ATTACH ':memory:' AS " + a)
	}
	return c
}

func (c *catdb) close() {
	c.cn.Close()
	c.db.Close()
}

func (c *catdb) exec(q string, args ...interface{}) {
	if _, err := c.cn.ExecContext(context.Background(), q, args...); err != nil {
		die("catalog: %v: %s", err, q)
	}
}

func (c *catdb) fn(name string, f interface{}) {
	err := c.cn.Raw(func(dc interface{}) error { return dc.(*sqlite3.SQLiteConn).RegisterFunc(name, f, true) })
	if err != nil {
		die("catalog function %s: %v", name, err)
	}
}

type cattab struct {
	name string
	cols []string
	rows [][]interface{}
}

func (c *catdb) table(s *session, name string, cols string, rows [][]interface{}) {
	cs := strings.Split(cols, ",")
	var q []string
	for _, x := range cs {
		q = append(q, "\""+strings.TrimSpace(x)+"\" COLLATE NOCASE_")
	}
	def := strings.ReplaceAll(strings.Join(q, ", "), " COLLATE NOCASE_", "")
	c.exec("CREATE TABLE " + name + " (" + def + ")")
	if len(rows) == 0 {
		return
	}
	ph := strings.TrimSuffix(strings.Repeat("?,", len(cs)), ",")
	for _, r := range s.permute(rows) {
		if len(r) != len(cs) {
			die("catalog table %s: %d values for %d columns", name, len(r), len(cs))
		}
		c.exec("INSERT INTO "+name+" VALUES ("+ph+")", r...)
	}
}

func (c *catdb) query(q string, args []string) (reply, error) {
	var a []interface{}
	for _, x := range args {
		a = append(a, x)
	}
	rows, err := c.cn.QueryContext(context.Background(), q, a...)
	if err != nil {
		return reply{}, err
	}
	defer rows.Close()
	cols, _ := rows.Columns()
	r := reply{cols: cols, rows: [][]interface{}{}}
	for rows.Next() {
		vs := make([]interface{}, len(cols))
		ps := make([]interface{}, len(cols))
		for i := range vs {
			ps[i] = &vs[i]
		}
		if err := rows.Scan(ps...); err != nil {
			return reply{}, err
		}
		for i, v := range vs {
			if b, ok := v.([]byte); ok {
				vs[i] = string(b)
			}
			if b, ok := v.(bool); ok {
				if b {
					vs[i] = int64(1)
				} else {
					vs[i] = int64(0)
				}
			}
		}
		r.rows = append(r.rows, vs)
	}
	return r, rows.Err()
}

func bit(b bool) interface{} {
	if b {
		return int64(1)
	}
	return int64(0)
}

func yesno(b bool) string {
	if b {
		return "YES"
	}
	return "NO"
}

func nullIf(s string) interface{} {
	if s == "" {
		return nil
	}
	return s
}

// ---------------------------------------------------------------------------
// MySQL information_schema

func catMySQL(s *session, text string, args []string) (reply, bool) {
	c := newCat([]string{"information_schema"})
	defer c.close()
	c.fn("database", func() string { return s.dbname })
	c.fn("schema", func() string { return s.dbname })
	var tabs, views, cols [][]interface{}
	add := func(dbn string, d *DB) {
		for _, t := range d.Tables {
			tabs = append(tabs, strRow("def", dbn, t.N, "BASE TABLE", "InnoDB"))
			for i, x := range t.Cols {
				cols = append(cols, strRow("def", dbn, t.N, x.N, i+1, yesno(x.Null), myType(&x)))
			}
		}
		for _, v := range d.Views {
			tabs = append(tabs, strRow("def", dbn, v.N, "VIEW", nil))
			views = append(views, strRow("def", dbn, v.N, mysqlViewDef(&v), "NONE", "YES", "root@%", "DEFINER"))
		}
	}
	// by schema name, as MySQL returns them
	if s.noise != nil {
		add("aaa_other", s.noise)
	}
	add(s.dbname, &s.db)
	c.table(s, "information_schema.tables", "table_catalog,table_schema,table_name,table_type,engine", tabs)
	c.table(s, "information_schema.columns", "table_catalog,table_schema,table_name,column_name,ordinal_position,is_nullable,column_type", cols)
	c.table(s, "information_schema.views", "table_catalog,table_schema,table_name,view_definition,check_option,is_updatable,definer,security_type", views)
	r, err := c.query(text, args)
	if err != nil {
		s.mach("catalog query failed: %v: %s", err, text)
		return reply{}, false
	}
	return r, true
}

// ---------------------------------------------------------------------------
// PostgreSQL

var (
	rePgCast  = regexp.MustCompile(`::\s*"?[a-zA-Z_]+"?(\[\])?`)
	rePgAny   = regexp.MustCompile(`(?i)([\w.]+)\s*=\s*ANY\s*\(\s*([\w.]+)\s*\)`)
	rePgParam = regexp.MustCompile(`\$(\d+)`)
	reAsCheck = regexp.MustCompile(`(?i)\bAS\s+check\b`)
	rePgCat   = regexp.MustCompile(`(?i)\bpg_catalog\.`)
)

func pgQuery(s *session, text string, args []string) (reply, bool) {
	low := strings.ToLower(strings.TrimSpace(text))
	if !strings.HasPrefix(low, "select") && !strings.HasPrefix(low, "with") && !strings.HasPrefix(low, "show") {
		return reply{ok: true, tag: "SELECT"}, true
	}
	q := rePgCast.ReplaceAllString(text, "")
	q = rePgAny.ReplaceAllString(q, "pg_any($1, $2)")
	q = rePgParam.ReplaceAllString(q, "?$1")
	q = reAsCheck.ReplaceAllString(q, `AS "check"`)
	q = rePgCat.ReplaceAllString(q, "")
	c := s.cat
	if c == nil {
		c = newCat([]string{"information_schema"})
		fillPG(c, s)
		s.cat = c
	}
	r, err := c.query(q, args)
	if err != nil {
		s.mach("catalog query failed: %v: %s", err, text)
		return reply{}, false
	}
	return r, true
}

func pgTypeName(c *SCol) string { // format_type
	s := c.Base
	if len(c.Args) > 0 {
		a := "(" + strings.Join(c.Args, ",") + ")"
		switch {
		case strings.HasPrefix(s, "timestamp "):
			s = "timestamp" + a + strings.TrimPrefix(s, "timestamp")
		case strings.HasPrefix(s, "time "):
			s = "time" + a + strings.TrimPrefix(s, "time")
		default:
			s += a
		}
	}
	if c.Arr {
		s += "[]"
	}
	return s
}

var pgBuiltin = map[string]bool{"smallint": true, "integer": true, "bigint": true, "numeric": true, "real": true, "double precision": true, "money": true,
	"character varying": true, "character": true, "text": true, "bytea": true, "timestamp without time zone": true, "timestamp with time zone": true,
	"date": true, "time without time zone": true, "time with time zone": true, "interval": true, "boolean": true, "uuid": true, "json": true, "jsonb": true,
	"xml": true, "inet": true, "cidr": true, "macaddr": true, "bit": true, "bit varying": true, "point": true, "line": true, "box": true, "circle": true, "path": true, "polygon": true, "lseg": true, "tsvector": true, "tsquery": true, "name": true, "oid": true, "int4range": true, "tstzrange": true}

func pgDefault(schema string, c *SCol) interface{} {
	switch c.Def.K {
	case "none":
		return nil
	case "serial":
		q := pgIdent(c.Def.V)
		if schema != "public" {
			q = pgIdent(schema) + "." + q
		}
		return "nextval('" + q + "'::regclass)"
	case "num":
		if strings.HasPrefix(c.Def.V, "-") {
			t := c.Base
			if strings.Contains(c.Def.V, ".") {
				t = "numeric"
			}
			return "'" + c.Def.V + "'::" + t
		}
		return c.Def.V
	case "str":
		cast := c.Base
		if cast == "character" {
			cast = "bpchar"
		}
		if c.Arr {
			cast += "[]"
		}
		return "'" + strings.ReplaceAll(c.Def.V, "'", "''") + "'::" + cast
	case "bool":
		return c.Def.V
	case "bit":
		return "B'" + c.Def.V + "'::\"bit\""
	case "expr":
		if c.Def.V == "current_timestamp" {
			return "CURRENT_TIMESTAMP"
		}
		if c.Def.V == "current_date" || c.Def.V == "current_time" {
			return strings.ToUpper(c.Def.V)
		}
		return (&deparser{d: PG}).expr(parseCanonExpr(c.Def.V))
	}
	return c.Def.V
}

func fkRule(s string) string {
	if s == "" {
		return "NO ACTION"
	}
	return strings.ToUpper(s)
}

func pgIndexDef(t *STable, k *SKey) string {
	u := ""
	if k.Kind != "index" {
		u = "UNIQUE "
	}
	using := "btree"
	for _, o := range k.Opts {
		if o.K == "using" {
			using = o.V
		}
	}
	var cs []string
	for _, kc := range k.Cols {
		x := pgIdent(kc.C)
		if kc.X {
			x = (&deparser{d: PG}).expr(parseCanonExpr(kc.C))
		}
		if kc.Desc {
			x += " DESC"
		}
		cs = append(cs, x)
	}
	s := fmt.Sprintf("CREATE %sINDEX %s ON %s.%s USING %s (%s)", u, pgIdent(k.Name), pgIdent(t.S), pgIdent(t.N), using, strings.Join(cs, ", "))
	if len(k.Incl) > 0 {
		var is []string
		for _, x := range k.Incl {
			is = append(is, pgIdent(x))
		}
		s += " INCLUDE (" + strings.Join(is, ", ") + ")"
	}
	if k.Where != "" {
		w := (&deparser{d: PG}).expr(parseCanonExpr(k.Where))
		if !strings.HasPrefix(w, "(") {
			w = "(" + w + ")"
		}
		s += " WHERE " + w
	}
	return s
}

// pgUniqueOf finds the key a foreign key refers to, and the positions of the
// referenced columns in it.
func pgUniqueOf(d *DB, f *SFk) (interface{}, []int) {
	for i := range d.Tables {
		t := &d.Tables[i]
		if t.S != f.Ref.S || t.N != f.Ref.N {
			continue
		}
		for _, k := range t.Keys {
			if !(k.Kind == "primary" || k.Con) || len(k.Cols) != len(f.Rcols) {
				continue
			}
			var pos []int
			for _, c := range f.Rcols {
				for n, kc := range k.Cols {
					if kc.C == c {
						pos = append(pos, n+1)
					}
				}
			}
			if len(pos) == len(f.Rcols) {
				return k.Name, pos
			}
		}
	}
	return nil, nil
}

func pgCheckDef(c *SCheck) string {
	s := "CHECK (" + (&deparser{d: PG, pretty: true}).prettyExpr(parseCanonExpr(c.Expr)) + ")"
	if c.Noinh {
		s += " NO INHERIT"
	}
	return s
}

func fillPG(c *catdb, s *session) {
	var isTables, isCols, isTC, isKCU, isCCU, isRC [][]interface{}
	var att, class, typ, attrdef, ns, con, idx, views, pols [][]interface{}
	nsOid := map[string]int{}
	oid := 16000
	next := func() int { oid++; return oid }
	typOid := map[string]int{}
	typName := map[int]string{}
	conDef := map[int]string{}
	nsp := func(n string) int {
		if o, ok := nsOid[n]; ok {
			return o
		}
		o := next()
		nsOid[n] = o
		ns = append(ns, strRow(o, n))
		return o
	}
	nsp("public")
	add := func(d *DB) {
		for i := range d.Tables {
			t := &d.Tables[i]
			toid := next()
			class = append(class, strRow(toid, t.N, nsp(t.S), "r"))
			isTables = append(isTables, strRow(s.dbname, t.S, t.N, "BASE TABLE"))
			attno := map[string]int{}
			for j := range t.Cols {
				x := &t.Cols[j]
				attno[x.N] = j + 1
				tn := pgTypeName(x)
				o, ok := typOid[tn]
				if !ok {
					o = next()
					typOid[tn] = o
					typName[o] = tn
					typ = append(typ, strRow(o, tn))
				}
				att = append(att, strRow(toid, x.N, o, -1, j+1, bit(!x.Null), bit(false), ""))
				def := pgDefault(t.S, x)
				if def != nil {
					attrdef = append(attrdef, strRow(next(), toid, j+1))
				}
				dt := x.Base
				if x.Arr {
					dt = "ARRAY"
				} else if !pgBuiltin[dt] {
					dt = "USER-DEFINED"
				}
				var ml, np, nsc interface{}
				switch x.Base {
				case "character varying", "character", "bit", "bit varying":
					if len(x.Args) > 0 && !x.Arr {
						ml = x.Args[0]
					}
				case "numeric":
					if len(x.Args) > 1 && !x.Arr {
						np, nsc = x.Args[0], x.Args[1]
					}
				}
				var idg interface{}
				isid := "NO"
				if x.Ident.Has {
					idg = strings.ToUpper(x.Ident.Beh)
					isid = "YES"
				}
				isCols = append(isCols, strRow(s.dbname, t.S, t.N, x.N, j+1, def, yesno(x.Null), dt, ml, np, nsc, x.Base, isid, idg))
			}
			keyset := func(cs []string) string {
				var a []string
				for _, x := range cs {
					a = append(a, fmt.Sprint(attno[x]))
				}
				return "{" + strings.Join(a, ",") + "}"
			}
			for j := range t.Keys {
				k := &t.Keys[j]
				var cs []string
				for _, kc := range k.Cols {
					cs = append(cs, kc.C)
				}
				idx = append(idx, strRow(t.S, t.N, k.Name, nil, pgIndexDef(t, k)))
				if k.Kind == "primary" || k.Con {
					ty, ct := "u", "UNIQUE"
					if k.Kind == "primary" {
						ty, ct = "p", "PRIMARY KEY"
					}
					o := next()
					conDef[o] = ct + " (" + strings.Join(cs, ", ") + ")"
					con = append(con, strRow(o, k.Name, nsp(t.S), ty, toid, keyset(cs)))
					isTC = append(isTC, strRow(s.dbname, t.S, k.Name, t.S, t.N, ct))
					for n, x := range cs {
						isKCU = append(isKCU, strRow(t.S, k.Name, t.S, t.N, x, n+1, nil))
						isCCU = append(isCCU, strRow(t.S, t.N, x, t.S, k.Name))
					}
				}
			}
			for j := range t.Fks {
				f := &t.Fks[j]
				o := next()
				con = append(con, strRow(o, f.Name, nsp(t.S), "f", toid, keyset(f.Cols)))
				isTC = append(isTC, strRow(s.dbname, t.S, f.Name, t.S, t.N, "FOREIGN KEY"))
				uq, upos := pgUniqueOf(d, f)
				for n, x := range f.Cols {
					var pos interface{}
					if uq != nil {
						pos = upos[n]
					}
					isKCU = append(isKCU, strRow(t.S, f.Name, t.S, t.N, x, n+1, pos))
				}
				for _, x := range f.Rcols {
					isCCU = append(isCCU, strRow(f.Ref.S, f.Ref.N, x, t.S, f.Name))
				}
				isRC = append(isRC, strRow(t.S, f.Name, f.Ref.S, uq, fkRule(f.Upd), fkRule(f.Del)))
			}
			for j := range t.Checks {
				k := &t.Checks[j]
				o := next()
				conDef[o] = pgCheckDef(k)
				con = append(con, strRow(o, k.Name, nsp(t.S), "c", toid, keyset(k.Cols)))
				isTC = append(isTC, strRow(s.dbname, t.S, k.Name, t.S, t.N, "CHECK"))
				for _, x := range k.Cols {
					isCCU = append(isCCU, strRow(t.S, t.N, x, t.S, k.Name))
				}
			}
			for j := range t.Pols {
				p := &t.Pols[j]
				pe := func(e string) interface{} {
					if e == "" {
						return nil
					}
					x := (&deparser{d: PG}).expr(parseCanonExpr(e))
					if !strings.HasPrefix(x, "(") {
						x = "(" + x + ")"
					}
					return x
				}
				pols = append(pols, strRow(t.S, t.N, p.N, strings.ToUpper(p.Perm), "{"+strings.Join(p.Roles, ",")+"}", strings.ToUpper(p.Cmd), pe(p.Using), pe(p.Check)))
			}
		}
		for i := range d.Views {
			v := &d.Views[i]
			class = append(class, strRow(next(), v.N, nsp(v.S), "v"))
			isTables = append(isTables, strRow(s.dbname, v.S, v.N, "VIEW"))
			views = append(views, strRow(v.S, v.N, "postgres", " "+(&deparser{d: PG}).sel(parseCanonSelect(v.Def))+";"))
		}
	}
	// system objects, as on every server
	isTables = append(isTables, strRow(s.dbname, "pg_catalog", "pg_class", "BASE TABLE"), strRow(s.dbname, "information_schema", "sql_features", "BASE TABLE"),
		strRow(s.dbname, "pg_catalog", "pg_views", "VIEW"), strRow(s.dbname, "information_schema", "columns", "VIEW"))
	views = append(views, strRow("pg_catalog", "pg_views", "postgres", " SELECT 1;"), strRow("information_schema", "columns", "postgres", " SELECT 1;"))
	if s.noise != nil {
		add(s.noise)
	}
	add(&s.db)
	c.table(s, "information_schema.tables", "table_catalog,table_schema,table_name,table_type", isTables)
	c.table(s, "information_schema.columns", "table_catalog,table_schema,table_name,column_name,ordinal_position,column_default,is_nullable,data_type,character_maximum_length,numeric_precision,numeric_scale,udt_name,is_identity,identity_generation", isCols)
	c.table(s, "information_schema.table_constraints", "constraint_catalog,constraint_schema,constraint_name,table_schema,table_name,constraint_type", isTC)
	c.table(s, "information_schema.key_column_usage", "constraint_schema,constraint_name,table_schema,table_name,column_name,ordinal_position,position_in_unique_constraint", isKCU)
	c.table(s, "information_schema.constraint_column_usage", "table_schema,table_name,column_name,constraint_schema,constraint_name", isCCU)
	c.table(s, "information_schema.referential_constraints", "constraint_schema,constraint_name,unique_constraint_schema,unique_constraint_name,update_rule,delete_rule", isRC)
	c.table(s, "pg_attribute", "attrelid,attname,atttypid,atttypmod,attnum,attnotnull,attisdropped,attidentity", att)
	c.table(s, "pg_class", "oid,relname,relnamespace,relkind", class)
	c.table(s, "pg_type", "oid,typname", typ)
	c.table(s, "pg_attrdef", "oid,adrelid,adnum", attrdef)
	c.table(s, "pg_namespace", "oid,nspname", ns)
	c.table(s, "pg_constraint", "oid,conname,connamespace,contype,conrelid,conkey", con)
	c.table(s, "pg_indexes", "schemaname,tablename,indexname,tablespace,indexdef", idx)
	c.table(s, "pg_views", "schemaname,viewname,viewowner,definition", views)
	c.table(s, "pg_policies", "schemaname,tablename,policyname,permissive,roles,cmd,qual,with_check", pols)
	c.fn("pg_any", func(a int64, set string) bool {
		return strings.Contains(","+strings.Trim(set, "{}")+",", fmt.Sprintf(",%d,", a))
	})
	c.fn("format_type", func(o int64, mod int64) string { return typName[int(o)] })
	c.fn("pg_get_constraintdef", func(a ...interface{}) string {
		if len(a) == 0 || a[0] == nil {
			return ""
		}
		o, _ := a[0].(int64)
		return conDef[int(o)]
	})
}

// ---------------------------------------------------------------------------
// SQL Server

var (
	reNolock  = regexp.MustCompile(`(?i)\bWITH\s*\(\s*NOLOCK\s*\)`)
	reMsAlias = regexp.MustCompile(`(?im)^(\s*)(\[?\w+\]?)\s*=\s*([^,\n]+?)(,?)[ \t]*$`)
	reMsN     = regexp.MustCompile(`\bN'`)
	reMsFrom  = regexp.MustCompile(`(?im)^\s*FROM\b`)
)

func msQuery(s *session, text string, args []string) (reply, bool) {
	q := reNolock.ReplaceAllString(text, "")
	q = reMsN.ReplaceAllString(q, "'")
	if loc := reMsFrom.FindStringIndex(q); loc != nil {
		q = reMsAlias.ReplaceAllString(q[:loc[0]], "$1$3 AS $2$4") + q[loc[0]:]
	}
	c := s.cat
	if c == nil {
		c = newCat([]string{"sys", "information_schema"})
		fillMS(c, s)
		s.cat = c
	}
	r, err := c.query(q, args)
	if err != nil {
		s.mach("catalog query failed: %v: %s", err, text)
		return reply{}, false
	}
	return r, true
}

func msMaxLen(c *SCol) int {
	n := 0
	if len(c.Args) > 0 {
		if c.Args[0] == "max" {
			return -1
		}
		fmt.Sscan(c.Args[0], &n)
	}
	switch c.Base {
	case "nchar", "nvarchar":
		return 2 * n
	case "char", "varchar", "binary", "varbinary":
		return n
	case "int", "real":
		return 4
	case "bigint", "float", "datetime", "money":
		return 8
	case "smallint":
		return 2
	case "tinyint", "bit":
		return 1
	case "text", "ntext", "image":
		return 16
	}
	return 9
}

func msPrecision(c *SCol) int {
	n := 0
	switch c.Base {
	case "decimal", "numeric":
		if len(c.Args) > 0 {
			fmt.Sscan(c.Args[0], &n)
		}
		return n
	case "int":
		return 10
	case "bigint":
		return 19
	case "smallint":
		return 5
	case "tinyint":
		return 3
	case "bit":
		return 1
	case "real":
		return 24
	case "float":
		return 53
	case "datetime":
		return 23
	case "time", "datetime2", "datetimeoffset":
		return 16
	}
	return 0
}

func msScale(c *SCol) int {
	n := 0
	switch c.Base {
	case "decimal", "numeric":
		if len(c.Args) > 1 {
			fmt.Sscan(c.Args[1], &n)
		}
	case "time", "datetime2", "datetimeoffset":
		if len(c.Args) > 0 {
			fmt.Sscan(c.Args[0], &n)
		}
	case "datetime":
		n = 3
	case "money":
		n = 4
	}
	return n
}

func msDefault(c *SCol) string {
	switch c.Def.K {
	case "num":
		return "((" + c.Def.V + "))"
	case "str":
		return "('" + strings.ReplaceAll(c.Def.V, "'", "''") + "')"
	case "none":
		return "(NULL)"
	}
	return "(" + (&deparser{d: MSSQL}).expr(parseCanonExpr(c.Def.V)) + ")"
}

func msCheckDef(c *SCheck) string {
	e := (&deparser{d: MSSQL}).expr(parseCanonExpr(c.Expr))
	if !strings.HasPrefix(e, "(") {
		e = "(" + e + ")"
	}
	return e
}

func fillMS(c *catdb, s *session) {
	objName := map[int]string{}
	objDef := map[int]string{}
	objId := map[string]int{}
	colName := map[string]string{}
	schemaId := map[string]int{"dbo": 1}
	schemaNm := map[int]string{1: "dbo"}
	var objects, schemas, columns, types, checks, idents, indexes, stats, ixcols, fks, fkcols, views, mods, trigs, defs [][]interface{}
	schemas = append(schemas, strRow(1, "dbo"))
	typId := map[string]int{}
	oid := 1000
	next := func() int { oid++; return oid }
	sch := func(n string) int {
		if n == "" {
			n = "dbo"
		}
		if i, ok := schemaId[n]; ok {
			return i
		}
		i := 4 + len(schemaId)
		schemaId[n] = i
		schemaNm[i] = n
		schemas = append(schemas, strRow(i, n))
		return i
	}
	obj := func(schema, name, typ string, parent int) int {
		o := next()
		objName[o] = name
		objId[strings.ToLower(schema+"."+name)] = o
		objects = append(objects, strRow(o, name, sch(schema), typ, parent))
		return o
	}
	onoff := func(opts []Opt, k string, def int64) interface{} {
		for _, o := range opts {
			if o.K == k {
				switch strings.ToLower(o.V) {
				case "on":
					return int64(1)
				case "off":
					return int64(0)
				}
				var n int64
				fmt.Sscan(o.V, &n)
				return n
			}
		}
		return def
	}
	add := func(d *DB) {
		tid := map[string]int{}
		for i := range d.Tables {
			t := &d.Tables[i]
			tid[t.S+"."+t.N] = obj(t.S, t.N, "U", 0)
		}
		for i := range d.Tables {
			t := &d.Tables[i]
			o := tid[t.S+"."+t.N]
			cid := map[string]int{}
			for j := range t.Cols {
				x := &t.Cols[j]
				cid[x.N] = j + 1
				colName[fmt.Sprintf("%d.%d", o, j+1)] = x.N
				ti, ok := typId[x.Base]
				if !ok {
					ti = 30 + len(typId)
					typId[x.Base] = ti
					types = append(types, strRow(x.Base, ti, ti))
				}
				did := 0
				if x.HasDef {
					did = obj(t.S, x.DefName, "D", o)
					objDef[did] = msDefault(x)
					defs = append(defs, strRow(did, x.DefName, o, j+1, objDef[did]))
				}
				columns = append(columns, strRow(o, x.N, j+1, ti, ti, msMaxLen(x), msPrecision(x), msScale(x), bit(x.Null), bit(x.Ident.Has), did))
				if x.Ident.Has {
					seed, inc := "1", "1"
					for _, op := range x.Ident.Opts {
						if op.K == "start" {
							seed = op.V
						}
						if op.K == "increment" {
							inc = op.V
						}
					}
					idents = append(idents, strRow(o, j+1, seed, inc, bit(x.Ident.Nfr)))
				}
			}
			for _, k := range t.Checks {
				ko := obj(t.S, k.Name, "C", o)
				objDef[ko] = msCheckDef(&k)
				on := k.Col
				if on == "" && len(k.Cols) == 1 {
					on = k.Cols[0] // the server attaches single-column checks to the column
				}
				checks = append(checks, strRow(k.Name, ko, o, cid[on], objDef[ko], bit(k.Nfr)))
			}
			clustered := false
			for _, k := range t.Keys {
				clustered = clustered || k.Clus == "clustered"
			}
			if !clustered {
				indexes = append(indexes, strRow(o, nil, 0, "HEAP", bit(false), bit(false), bit(false), bit(false), 0, bit(false), bit(true), bit(true), bit(false), nil))
			}
			n := 1
			for _, k := range t.Keys {
				ii := 1
				if k.Clus != "clustered" {
					n++
					ii = n
				}
				td := strings.ToUpper(k.Clus)
				var filt interface{}
				if k.Where != "" {
					filt = (&deparser{d: MSSQL}).expr(parseCanonExpr(k.Where))
				}
				indexes = append(indexes, strRow(o, k.Name, ii, td, bit(k.Kind == "primary"), bit(k.Kind != "index"), bit(k.Kind == "unique" && k.Con),
					onoff(k.Opts, "pad_index", 0), onoff(k.Opts, "fillfactor", 0), onoff(k.Opts, "ignore_dup_key", 0), onoff(k.Opts, "allow_row_locks", 1), onoff(k.Opts, "allow_page_locks", 1), bit(filt != nil), filt))
				stats = append(stats, strRow(o, k.Name, ii, onoff(k.Opts, "statistics_norecompute", 0), onoff(k.Opts, "statistics_incremental", 0)))
				m := 0
				for q, kc := range k.Cols {
					m++
					ixcols = append(ixcols, strRow(o, ii, m, cid[kc.C], q+1, bit(kc.Desc), bit(false)))
				}
				for _, x := range k.Incl {
					m++
					ixcols = append(ixcols, strRow(o, ii, m, cid[x], 0, bit(false), bit(true)))
				}
			}
			for _, f := range t.Fks {
				fo := obj(t.S, f.Name, "F", o)
				ro := tid[f.Ref.S+"."+f.Ref.N]
				act := func(a string) string {
					if a == "" || a == "restrict" {
						a = "no action"
					}
					return strings.ToUpper(strings.ReplaceAll(a, " ", "_"))
				}
				fks = append(fks, strRow(f.Name, fo, o, ro, act(f.Upd), act(f.Del), bit(f.Nfr), sch(t.S)))
				rt := d.table(f.Ref.S, f.Ref.N)
				for q := range f.Cols {
					rc := 0
					if rt != nil {
						for z := range rt.Cols {
							if rt.Cols[z].N == f.Rcols[q] {
								rc = z + 1
							}
						}
					}
					fkcols = append(fkcols, strRow(fo, q+1, o, cid[f.Cols[q]], ro, rc))
				}
			}
		}
		for _, v := range d.Views {
			o := obj(v.S, v.N, "V", 0)
			views = append(views, strRow(o, v.N, sch(v.S)))
			mods = append(mods, strRow(o, msViewText(&v)))
		}
		for _, g := range d.Trigs {
			p := tid[g.T.S+"."+g.T.N]
			o := obj(g.T.S, g.N, "TR", p)
			trigs = append(trigs, strRow(o, g.N, p))
			mods = append(mods, strRow(o, msTrigText(&g)))
		}
	}
	if s.noise != nil {
		add(s.noise)
	}
	add(&s.db)
	c.table(s, "sys.objects", "object_id,name,schema_id,type,parent_object_id", objects)
	var tabs [][]interface{}
	for _, o := range objects {
		if o[3] == "U" {
			tabs = append(tabs, o[:3])
		}
	}
	c.table(s, "sys.tables", "object_id,name,schema_id", tabs)
	c.table(s, "sys.schemas", "schema_id,name", schemas)
	c.table(s, "sys.columns", "object_id,name,column_id,user_type_id,system_type_id,max_length,precision,scale,is_nullable,is_identity,default_object_id", columns)
	c.table(s, "sys.types", "name,user_type_id,system_type_id", types)
	c.table(s, "sys.check_constraints", "name,object_id,parent_object_id,parent_column_id,definition,is_not_for_replication", checks)
	c.table(s, "sys.default_constraints", "object_id,name,parent_object_id,parent_column_id,definition", defs)
	c.table(s, "sys.identity_columns", "object_id,column_id,seed_value,increment_value,is_not_for_replication", idents)
	c.table(s, "sys.indexes", "object_id,name,index_id,type_desc,is_primary_key,is_unique,is_unique_constraint,is_padded,fill_factor,ignore_dup_key,allow_row_locks,allow_page_locks,has_filter,filter_definition", indexes)
	c.table(s, "sys.stats", "object_id,name,stats_id,no_recompute,is_incremental", stats)
	c.table(s, "sys.index_columns", "object_id,index_id,index_column_id,column_id,key_ordinal,is_descending_key,is_included_column", ixcols)
	c.table(s, "sys.foreign_keys", "name,object_id,parent_object_id,referenced_object_id,update_referential_action_desc,delete_referential_action_desc,is_not_for_replication,schema_id", fks)
	c.table(s, "sys.foreign_key_columns", "constraint_object_id,constraint_column_id,parent_object_id,parent_column_id,referenced_object_id,referenced_column_id", fkcols)
	c.table(s, "sys.views", "object_id,name,schema_id", views)
	c.table(s, "sys.sql_modules", "object_id,definition", mods)
	c.table(s, "sys.all_sql_modules", "object_id,definition", mods)
	c.table(s, "sys.triggers", "object_id,name,parent_id", trigs)
	unq := func(n string) string {
		n = strings.ReplaceAll(strings.ReplaceAll(n, "[", ""), "]", "")
		n = strings.ReplaceAll(n, "\"", "")
		if !strings.Contains(n, ".") {
			n = "dbo." + n
		}
		return strings.ToLower(n)
	}
	c.fn("object_id", func(n string) int64 { return int64(objId[unq(n)]) })
	c.fn("object_id", func(n, ty string) int64 { return int64(objId[unq(n)]) })
	str := func(m map[int]string) func(v int64) string {
		return func(v int64) string { return m[int(v)] }
	}
	c.fn("object_name", str(objName))
	c.fn("object_definition", str(objDef))
	c.fn("schema_name", str(schemaNm))
	c.fn("quotename", func(v string) string { return "[" + v + "]" })
	c.fn("object_schema_name", func(v int64) string {
		for _, o := range objects {
			if o[0] == int(v) {
				return schemaNm[o[2].(int)]
			}
		}
		return ""
	})
	c.fn("col_name", func(a, b int64) string { return colName[fmt.Sprintf("%d.%d", a, b)] })
}

func msID(s string) string { return "[" + s + "]" }

// the module text: the statement as it was sent (OR ALTER is blanked out)
func msViewText(v *SView) string { return v.Text }

var reOrAlter = regexp.MustCompile(`(?i)^(\s*create)\s+or\s+alter\b`)

func msTrigText(g *STrig) string { return reOrAlter.ReplaceAllString(g.Text, "$1  ") }
