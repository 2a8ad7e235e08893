From dd59874ff014fb3bbd33744e0195c9d988360953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:40 +0000
Subject: [PATCH 01/61] fix: escape string literals in generated DEFAULT
 clauses

---
 schema/generator.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 2f4421f..b5e2d9f 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -336,7 +336,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 						ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s DROP DEFAULT", g.escapeTableName(currentTable.name), g.escapeSQLName(currentColumn.name)))
 					} else {
 						// set
-						definition, err := generateDefaultDefinition(*desiredColumn.defaultDef.value)
+						definition, err := g.generateDefaultDefinition(*desiredColumn.defaultDef.value)
 						if err != nil {
 							return ddls, err
 						}
@@ -405,7 +405,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 					}
 					if desiredColumn.defaultDef != nil {
 						// set
-						definition, err := generateDefaultDefinition(*desiredColumn.defaultDef.value)
+						definition, err := g.generateDefaultDefinition(*desiredColumn.defaultDef.value)
 						if err != nil {
 							return ddls, err
 						}
@@ -805,7 +805,7 @@ func (g *Generator) generateColumnDefinition(column Column, enableUnique bool) (
 	}
 
 	if column.defaultDef != nil && column.defaultDef.value != nil {
-		def, err := generateDefaultDefinition(*column.defaultDef.value)
+		def, err := g.generateDefaultDefinition(*column.defaultDef.value)
 		if err != nil {
 			return "", fmt.Errorf("%s in column: %#v", err.Error(), column)
 		}
@@ -1054,6 +1054,14 @@ func (g *Generator) escapeSQLName(name string) string {
 	}
 }
 
+// Escape the contents of a string literal.
+func (g *Generator) escapeStringLiteral(str string) string {
+	if g.mode == GeneratorModeMysql {
+		str = strings.Replace(str, "\\", "\\\\", -1)
+	}
+	return strings.Replace(str, "'", "''", -1)
+}
+
 func (g *Generator) notNull(column Column) bool {
 	if column.notNull == nil {
 		switch g.mode {
@@ -1607,10 +1615,10 @@ func generateSequenceClause(sequence *Sequence) string {
 	return strings.TrimSpace(ddl)
 }
 
-func generateDefaultDefinition(defaultVal Value) (string, error) {
+func (g *Generator) generateDefaultDefinition(defaultVal Value) (string, error) {
 	switch defaultVal.valueType {
 	case ValueTypeStr:
-		return fmt.Sprintf("DEFAULT '%s'", defaultVal.strVal), nil
+		return fmt.Sprintf("DEFAULT '%s'", g.escapeStringLiteral(defaultVal.strVal)), nil
 	case ValueTypeInt:
 		return fmt.Sprintf("DEFAULT %d", defaultVal.intVal), nil
 	case ValueTypeFloat:
-- 
2.43.0


From 0cbefcd2f0346e7b82d4d0048f189201f69c84b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:58 +0000
Subject: [PATCH 02/61] fix: keep the digits of numeric and bit DEFAULT values

---
 schema/generator.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index b5e2d9f..ae776d9 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1620,15 +1620,11 @@ func (g *Generator) generateDefaultDefinition(defaultVal Value) (string, error)
 	case ValueTypeStr:
 		return fmt.Sprintf("DEFAULT '%s'", g.escapeStringLiteral(defaultVal.strVal)), nil
 	case ValueTypeInt:
-		return fmt.Sprintf("DEFAULT %d", defaultVal.intVal), nil
+		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
 	case ValueTypeFloat:
-		return fmt.Sprintf("DEFAULT %f", defaultVal.floatVal), nil
+		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
 	case ValueTypeBit:
-		if defaultVal.bitVal {
-			return "DEFAULT b'1'", nil
-		} else {
-			return "DEFAULT b'0'", nil
-		}
+		return fmt.Sprintf("DEFAULT b'%s'", string(defaultVal.raw)), nil
 	case ValueTypeValArg: // NULL, CURRENT_TIMESTAMP, ...
 		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
 	default:
-- 
2.43.0


From 4c85e7ebf6d08254cf4a0886eedba03100f73d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:19 +0000
Subject: [PATCH 03/61] fix: keep DEFAULT now() instead of turning it into a
 bit literal

---
 sqlparser/parser.go | 2 +-
 sqlparser/parser.y  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index afa3a4d..3f70b97 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -4285,7 +4285,7 @@ yydefault:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:1066
 		{
-			yyVAL.optVal = NewBitVal(yyDollar[1].bytes)
+			yyVAL.optVal = NewValArg(append(yyDollar[1].bytes, "()"...))
 		}
 	case 151:
 		yyDollar = yyS[yypt-1 : yypt+1]
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index b148377..76b6a40 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -1064,7 +1064,7 @@ default_val:
   }
 | NOW openb closeb
   {
-    $$ = NewBitVal($1)
+    $$ = NewValArg(append($1, "()"...))
   }
 
 identity_behavior:
-- 
2.43.0


From 7716c4deb2cdd1374514f0daaf71827a6c38d87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:19 +0000
Subject: [PATCH 04/61] fix: support boolean DEFAULT values when adding or
 changing a column

---
 schema/generator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index ae776d9..ab7f976 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1325,6 +1325,10 @@ func areSameValue(current, desired *Value) bool {
 	// NOTE: -1 can be changed to '-1' in show create table and valueType is not reliable
 	currentRaw := string(current.raw)
 	desiredRaw := string(desired.raw)
+	if desired.valueType == ValueTypeBool && current.valueType != ValueTypeBool {
+		// MySQL stores TRUE and FALSE as 1 and 0
+		return currentRaw == map[string]string{"true": "1", "false": "0"}[desiredRaw]
+	}
 	if desired.valueType == ValueTypeFloat && len(currentRaw) > len(desiredRaw) {
 		// Round "0.00" to "0.0" for comparison with desired.
 		// Ideally we should do this seeing precision in a data type.
@@ -1625,6 +1629,8 @@ func (g *Generator) generateDefaultDefinition(defaultVal Value) (string, error)
 		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
 	case ValueTypeBit:
 		return fmt.Sprintf("DEFAULT b'%s'", string(defaultVal.raw)), nil
+	case ValueTypeBool:
+		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
 	case ValueTypeValArg: // NULL, CURRENT_TIMESTAMP, ...
 		return fmt.Sprintf("DEFAULT %s", string(defaultVal.raw)), nil
 	default:
-- 
2.43.0


From 31cc0c5e5b2190fbf18241d6432d678d746a9b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:10 +0000
Subject: [PATCH 05/61] fix: keep the parentheses of DEFAULT getdate()

---
 sqlparser/parser.go | 2 +-
 sqlparser/parser.y  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index 3f70b97..cfb1e3f 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -4430,7 +4430,7 @@ yydefault:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:1172
 		{
-			yyVAL.optVal = NewValArgWithOpt(yyDollar[1].bytes, nil)
+			yyVAL.optVal = NewValArg(append(yyDollar[1].bytes, "()"...))
 		}
 	case 173:
 		yyDollar = yyS[yypt-0 : yypt+1]
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index 76b6a40..e93fb8e 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -1170,7 +1170,7 @@ current_timestamp:
   }
 | GETDATE '(' ')'
   {
-    $$ = NewValArgWithOpt($1, nil)
+    $$ = NewValArg(append($1, "()"...))
   }
 
 no_inherit_opt:
-- 
2.43.0


From 49fbf37cae675f9669cda46cf94006aaae532168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:33 +0000
Subject: [PATCH 06/61] fix: keep the values of SET columns and escape quotes
 in ENUM and SET values

---
 schema/generator.go | 2 +-
 sqlparser/ast.go    | 5 +++++
 sqlparser/parser.go | 4 ++--
 sqlparser/parser.y  | 4 ++--
 4 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index ab7f976..b28b578 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -770,7 +770,7 @@ func generateDataType(column Column) string {
 		}
 	} else {
 		switch column.typeName {
-		case "enum":
+		case "enum", "set":
 			return fmt.Sprintf("%s(%s)%s", column.typeName, strings.Join(column.enumValues, ", "), suffix)
 		default:
 			return fmt.Sprintf("%s%s", column.typeName, suffix)
diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index 299e0ec..a87f43f 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -2431,6 +2431,11 @@ type SQLVal struct {
 	Val  []byte
 }
 
+// quoteEnumValue builds the literal of an ENUM or SET value.
+func quoteEnumValue(in []byte) string {
+	return "'" + strings.NewReplacer("'", "''", "\\", "\\\\").Replace(string(in)) + "'"
+}
+
 // NewStrVal builds a new StrVal.
 func NewStrVal(in []byte) *SQLVal {
 	return &SQLVal{Type: StrVal, Val: in}
diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index cfb1e3f..b4e69a2 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -4834,13 +4834,13 @@ yydefault:
 //line sqlparser/parser.y:1468
 		{
 			yyVAL.strs = make([]string, 0, 4)
-			yyVAL.strs = append(yyVAL.strs, "'"+string(yyDollar[1].bytes)+"'")
+			yyVAL.strs = append(yyVAL.strs, quoteEnumValue(yyDollar[1].bytes))
 		}
 	case 242:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line sqlparser/parser.y:1473
 		{
-			yyVAL.strs = append(yyDollar[1].strs, "'"+string(yyDollar[3].bytes)+"'")
+			yyVAL.strs = append(yyDollar[1].strs, quoteEnumValue(yyDollar[3].bytes))
 		}
 	case 243:
 		yyDollar = yyS[yypt-0 : yypt+1]
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index e93fb8e..d1cc1eb 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -1467,11 +1467,11 @@ enum_values:
   STRING
   {
     $$ = make([]string, 0, 4)
-    $$ = append($$, "'" + string($1) + "'")
+    $$ = append($$, quoteEnumValue($1))
   }
 | enum_values ',' STRING
   {
-    $$ = append($1, "'" + string($3) + "'")
+    $$ = append($1, quoteEnumValue($3))
   }
 
 length_opt:
-- 
2.43.0


From f7a48acf8b3d1c7c604be6e7b958cb277e1a936a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 07/61] fix: recognize numeric, real and double precision as
 aliases

---
 schema/generator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index b28b578..0e05864 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -24,9 +24,12 @@ var (
 		"int":     "integer",
 		"char":    "character",
 		"varchar": "character varying",
+		"numeric": "decimal",
 	}
 	mysqlDataTypeAliases = map[string]string{
-		"boolean": "tinyint",
+		"boolean":          "tinyint",
+		"real":             "double",
+		"double precision": "double",
 	}
 )
 
-- 
2.43.0


From dbad8d060b039d6bff82c0b6d9c3f6a60de215fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 08/61] fix: ON DELETE/UPDATE RESTRICT is the default of MySQL

---
 schema/generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index 0e05864..76448ff 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1484,6 +1484,8 @@ func areSamePolicies(policyA, policyB Policy) bool {
 func (g *Generator) normalizeOnUpdate(onUpdate string) string {
 	if (g.mode == GeneratorModePostgres || g.mode == GeneratorModeMssql) && onUpdate == "" {
 		return "NO ACTION"
+	} else if g.mode == GeneratorModeMysql && strings.ToUpper(onUpdate) == "RESTRICT" {
+		return "" // the default of MySQL, which doesn't show it
 	} else {
 		return onUpdate
 	}
@@ -1492,6 +1494,8 @@ func (g *Generator) normalizeOnUpdate(onUpdate string) string {
 func (g *Generator) normalizeOnDelete(onDelete string) string {
 	if (g.mode == GeneratorModePostgres || g.mode == GeneratorModeMssql) && onDelete == "" {
 		return "NO ACTION"
+	} else if g.mode == GeneratorModeMysql && strings.ToUpper(onDelete) == "RESTRICT" {
+		return "" // the default of MySQL, which doesn't show it
 	} else {
 		return onDelete
 	}
-- 
2.43.0


From 28ecdedbf137fd3ab872cdb6f920eb14aa91d6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:50 +0000
Subject: [PATCH 09/61] fix: report a failed commit instead of exiting
 successfully

---
 adapter/database.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/adapter/database.go b/adapter/database.go
index 3cd6755..bb2e6ec 100644
--- a/adapter/database.go
+++ b/adapter/database.go
@@ -74,6 +74,5 @@ func RunDDLs(d Database, ddls []string, skipDrop bool) error {
 			return err
 		}
 	}
-	transaction.Commit()
-	return nil
+	return transaction.Commit()
 }
-- 
2.43.0


From 2a1db64904231ff7f8a25871bc3f313c87122745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:02 +0000
Subject: [PATCH 10/61] fix: notice a result set that ends with an error

---
 adapter/mssql/mssql.go       | 21 +++++++++++++++++++++
 adapter/mysql/mysql.go       |  9 +++++++++
 adapter/postgres/postgres.go | 21 +++++++++++++++++++++
 adapter/sqlite3/sqlite3.go   |  6 ++++++
 4 files changed, 57 insertions(+)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index a84e86a..034ac88 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -47,6 +47,9 @@ func (d *MssqlDatabase) TableNames() ([]string, error) {
 		}
 		tables = append(tables, schema+"."+name)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return tables, nil
 }
 
@@ -245,6 +248,9 @@ WHERE c.[object_id] = OBJECT_ID('%s.%s', 'U')`, schema, table)
 		}
 		cols = append(cols, col)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return cols, nil
 }
 
@@ -308,6 +314,9 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 		definition := &indexDef{name: indexName, columns: []string{}, primary: isPrimary, unique: isUnique, indexType: typeDesc, included: []string{}, options: options}
 		indexDefMap[indexName] = definition
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	rows.Close()
 
@@ -345,6 +354,9 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 			indexDefMap[indexName].columns = append(indexDefMap[indexName].columns, columnDefinition)
 		}
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	indexDefs := make([]*indexDef, 0)
 	for _, definition := range indexDefMap {
@@ -388,6 +400,9 @@ WHERE f.parent_object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 		}
 		defs = append(defs, def)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	return defs, nil
 }
@@ -436,6 +451,9 @@ INNER JOIN sys.sql_modules
 		definition = spaces.ReplaceAllString(definition, " ")
 		ddls = append(ddls, definition)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return ddls, nil
 }
 
@@ -460,6 +478,9 @@ INNER JOIN sys.all_sql_modules s ON s.object_id = tr.object_id`
 		}
 		triggers = append(triggers, definition)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	return triggers, nil
 }
diff --git a/adapter/mysql/mysql.go b/adapter/mysql/mysql.go
index 7f5709d..21fe4fc 100644
--- a/adapter/mysql/mysql.go
+++ b/adapter/mysql/mysql.go
@@ -41,6 +41,9 @@ func (d *MysqlDatabase) TableNames() ([]string, error) {
 		}
 		tables = append(tables, table)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return tables, nil
 }
 
@@ -75,6 +78,9 @@ func (d *MysqlDatabase) Views() ([]string, error) {
 		}
 		ddls = append(ddls, fmt.Sprintf("CREATE VIEW %s AS %s", viewName, definition))
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return ddls, nil
 }
 
@@ -93,6 +99,9 @@ func (d *MysqlDatabase) Triggers() ([]string, error) {
 		}
 		ddls = append(ddls, fmt.Sprintf("CREATE TRIGGER %s %s %s ON %s FOR EACH ROW %s;", trigger, timing, event, table, statement))
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return ddls, nil
 }
 
diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index f9d2a35..8be4340 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -52,6 +52,9 @@ func (d *PostgresDatabase) TableNames() ([]string, error) {
 		}
 		tables = append(tables, schema+"."+name)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return tables, nil
 }
 
@@ -89,6 +92,9 @@ func (d *PostgresDatabase) Views() ([]string, error) {
 			),
 		)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return ddls, nil
 }
 
@@ -265,6 +271,9 @@ WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum >
 		}
 		cols = append(cols, col)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return cols, nil
 }
 
@@ -290,6 +299,9 @@ func (d *PostgresDatabase) getIndexDefs(table string) ([]string, error) {
 		}
 		indexes = append(indexes, indexdef)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return indexes, nil
 }
 
@@ -318,6 +330,9 @@ WHERE constraint_type = 'PRIMARY KEY' AND tc.table_schema=$1 AND tc.table_name=$
 		}
 		columnNames = append(columnNames, columnName)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return columnNames, nil
 }
 
@@ -359,6 +374,9 @@ WHERE constraint_type = 'FOREIGN KEY' AND tc.table_schema=$1 AND tc.table_name=$
 		)
 		defs = append(defs, def)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return defs, nil
 }
 
@@ -400,6 +418,9 @@ func (d *PostgresDatabase) getPolicyDefs(table string) ([]string, error) {
 		}
 		defs = append(defs, def)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return defs, nil
 }
 
diff --git a/adapter/sqlite3/sqlite3.go b/adapter/sqlite3/sqlite3.go
index b33094a..12c6d7c 100644
--- a/adapter/sqlite3/sqlite3.go
+++ b/adapter/sqlite3/sqlite3.go
@@ -41,6 +41,9 @@ func (d *Sqlite3Database) TableNames() ([]string, error) {
 		}
 		tables = append(tables, name)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return tables, nil
 }
 
@@ -67,6 +70,9 @@ func (d *Sqlite3Database) Views() ([]string, error) {
 		}
 		ddls = append(ddls, sql)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	return ddls, nil
 }
-- 
2.43.0


From 9567c41347a0db5e9cd938055af621b40442c6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:30 +0000
Subject: [PATCH 11/61] fix: escape every part of the PostgreSQL connection URL
 and support socket directories

---
 adapter/postgres/postgres.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index 8be4340..8628278 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -433,27 +433,31 @@ func (d *PostgresDatabase) Close() error {
 }
 
 func postgresBuildDSN(config adapter.Config) string {
-	user := config.User
-	password := config.Password
-	database := config.DbName
-	host := ""
+	query := url.Values{}
+	u := &url.URL{
+		Scheme: "postgres",
+		User:   url.UserPassword(config.User, config.Password),
+		Path:   "/" + config.DbName,
+	}
+
 	if config.Socket == "" {
-		host = fmt.Sprintf("%s:%d", config.Host, config.Port)
+		u.Host = fmt.Sprintf("%s:%d", config.Host, config.Port)
 	} else {
-		host = config.Socket
+		// A socket directory can't be the host part of a URL
+		query.Set("host", config.Socket)
+		query.Set("port", strconv.Itoa(config.Port))
 	}
 
-	var options []string
 	if sslmode, ok := os.LookupEnv("PGSSLMODE"); ok { // TODO: have this in adapter.Config, or standardize config with DSN?
-		options = append(options, fmt.Sprintf("sslmode=%s", sslmode)) // TODO: uri escape
+		query.Set("sslmode", sslmode)
 	}
 
 	if sslrootcert, ok := os.LookupEnv("PGSSLROOTCERT"); ok { // TODO: have this in adapter.Config, or standardize config with DSN?
-		options = append(options, fmt.Sprintf("sslrootcert=%s", sslrootcert))
+		query.Set("sslrootcert", sslrootcert)
 	}
 
-	// `QueryEscape` instead of `PathEscape` so that colon can be escaped.
-	return fmt.Sprintf("postgres://%s:%s@%s/%s?%s", url.QueryEscape(user), url.QueryEscape(password), host, database, strings.Join(options, "&"))
+	u.RawQuery = query.Encode()
+	return u.String()
 }
 
 func splitTableName(table string) (string, string) {
-- 
2.43.0


From eaf5a601c4c36d33cc29091ec0797c09e008acef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:30 +0000
Subject: [PATCH 12/61] fix: read the definition of a MySQL view from the
 target database only

---
 adapter/mysql/mysql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adapter/mysql/mysql.go b/adapter/mysql/mysql.go
index 21fe4fc..758eafe 100644
--- a/adapter/mysql/mysql.go
+++ b/adapter/mysql/mysql.go
@@ -72,7 +72,7 @@ func (d *MysqlDatabase) Views() ([]string, error) {
 		if err = rows.Scan(&viewName, &viewType); err != nil {
 			return nil, err
 		}
-		query := fmt.Sprintf("select VIEW_DEFINITION from INFORMATION_SCHEMA.VIEWS where TABLE_NAME = '%s';", viewName)
+		query := fmt.Sprintf("select VIEW_DEFINITION from INFORMATION_SCHEMA.VIEWS where TABLE_SCHEMA = database() and TABLE_NAME = '%s';", viewName)
 		if err = d.db.QueryRow(query).Scan(&definition); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From aadf98501b1295583c26c2144c2fbc2b62e6e435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:00 +0000
Subject: [PATCH 13/61] fix: do not mix up PostgreSQL objects of the same name
 in different schemas

---
 adapter/postgres/postgres.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index 8628278..cdaf784 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -66,7 +66,7 @@ var (
 func (d *PostgresDatabase) Views() ([]string, error) {
 	rows, err := d.db.Query(
 		`select table_schema, table_name, definition from information_schema.tables
-		 inner join pg_views on table_name = viewname
+		 inner join pg_views on table_schema = schemaname and table_name = viewname
 		 where table_schema not in ('information_schema', 'pg_catalog')
 		 and (table_schema != 'public' or table_name != 'pg_buffercache')
 		 and table_type = 'VIEW';`,
@@ -225,7 +225,7 @@ FROM pg_attribute f
 	LEFT JOIN pg_namespace n ON n.oid = c.relnamespace
 	LEFT JOIN pg_constraint p ON p.conrelid = c.oid AND f.attnum = ANY (p.conkey) AND p.contype = 'u'
 	LEFT JOIN pg_constraint pc ON pc.conrelid = c.oid AND f.attnum = ANY (pc.conkey) AND pc.contype = 'c'
-	LEFT JOIN information_schema.columns s ON s.column_name=f.attname AND s.table_name = c.relname
+	LEFT JOIN information_schema.columns s ON s.column_name=f.attname AND s.table_name = c.relname AND s.table_schema = n.nspname
 WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum > 0 ORDER BY f.attnum;`
 
 	schema, table := splitTableName(table)
@@ -311,7 +311,8 @@ func (d *PostgresDatabase) getPrimaryKeyColumns(table string) ([]string, error)
 FROM
 	information_schema.table_constraints AS tc
 	JOIN information_schema.key_column_usage AS kcu
-		ON tc.constraint_name = kcu.constraint_name
+		ON tc.constraint_schema = kcu.constraint_schema AND tc.constraint_name = kcu.constraint_name
+		AND tc.table_name = kcu.table_name
 WHERE constraint_type = 'PRIMARY KEY' AND tc.table_schema=$1 AND tc.table_name=$2 ORDER BY kcu.ordinal_position`
 	schema, table := splitTableName(table)
 	rows, err := d.db.Query(query, schema, table)
@@ -348,11 +349,12 @@ func (d *PostgresDatabase) getForeginDefs(table string) ([]string, error) {
 FROM
 	information_schema.table_constraints AS tc
 	JOIN information_schema.key_column_usage AS kcu
-		ON tc.constraint_name = kcu.constraint_name
+		ON tc.constraint_schema = kcu.constraint_schema AND tc.constraint_name = kcu.constraint_name
+		AND tc.table_name = kcu.table_name
 	JOIN information_schema.constraint_column_usage AS ccu
-		ON tc.constraint_name = ccu.constraint_name
+		ON tc.constraint_schema = ccu.constraint_schema AND tc.constraint_name = ccu.constraint_name
 	JOIN information_schema.referential_constraints AS rc
-		ON tc.constraint_name = rc.constraint_name
+		ON tc.constraint_schema = rc.constraint_schema AND tc.constraint_name = rc.constraint_name
 WHERE constraint_type = 'FOREIGN KEY' AND tc.table_schema=$1 AND tc.table_name=$2`
 	schema, table := splitTableName(table)
 	rows, err := d.db.Query(query, schema, table)
@@ -408,7 +410,7 @@ func (d *PostgresDatabase) getPolicyDefs(table string) ([]string, error) {
 		roles = policyRolesSuffixRegex.ReplaceAllString(roles, "")
 		def := fmt.Sprintf(
 			"CREATE POLICY %s ON %s AS %s FOR %s TO %s",
-			policyName, table, permissive, cmd, roles,
+			policyName, schema+"."+table, permissive, cmd, roles,
 		)
 		if using.Valid {
 			def += fmt.Sprintf(" USING %s", using.String)
-- 
2.43.0


From 1f461b3c9356a1fa09e36b0f16d312ad02b66dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:49 +0000
Subject: [PATCH 14/61] fix: quote strings and identifiers in views, checks,
 predicates and policies in the way of the database

---
 schema/parser.go | 59 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 11 deletions(-)

diff --git a/schema/parser.go b/schema/parser.go
index d5eac91..57c7491 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -121,8 +121,8 @@ func parseTable(mode GeneratorMode, stmt *sqlparser.DDL) (Table, error) {
 		}
 		if parsedCol.Type.Check != nil {
 			column.check = &CheckDefinition{
-				definition:        sqlparser.String(parsedCol.Type.Check.Where.Expr),
-				constraintName:    sqlparser.String(parsedCol.Type.Check.ConstraintName),
+				definition:        formatNode(mode, parsedCol.Type.Check.Where.Expr),
+				constraintName:    parsedCol.Type.Check.ConstraintName.String(),
 				notForReplication: parsedCol.Type.Check.NotForReplication,
 			}
 		}
@@ -209,7 +209,44 @@ func parseTable(mode GeneratorMode, stmt *sqlparser.DDL) (Table, error) {
 	}, nil
 }
 
-func parseIndex(stmt *sqlparser.DDL) (Index, error) {
+// Format a part of a statement. sqlparser quotes identifiers and strings for MySQL, which the others don't understand.
+func formatNode(mode GeneratorMode, node sqlparser.SQLNode) string {
+	if mode == GeneratorModeMysql {
+		return sqlparser.String(node)
+	}
+
+	quoteID := func(node sqlparser.SQLNode, name string) string {
+		formatted := sqlparser.String(node)
+		if !strings.HasPrefix(formatted, "`") {
+			return formatted
+		}
+		if mode == GeneratorModeMssql {
+			return "[" + strings.ReplaceAll(name, "]", "]]") + "]"
+		}
+		return "\"" + strings.ReplaceAll(name, "\"", "\"\"") + "\""
+	}
+
+	buf := sqlparser.NewTrackedBuffer(func(buf *sqlparser.TrackedBuffer, node sqlparser.SQLNode) {
+		switch node := node.(type) {
+		case *sqlparser.SQLVal:
+			if node.Type == sqlparser.StrVal {
+				buf.WriteString("'" + strings.ReplaceAll(string(node.Val), "'", "''") + "'")
+			} else {
+				node.Format(buf)
+			}
+		case sqlparser.ColIdent:
+			buf.WriteString(quoteID(node, node.String()))
+		case sqlparser.TableIdent:
+			buf.WriteString(quoteID(node, node.String()))
+		default:
+			node.Format(buf)
+		}
+	})
+	buf.Myprintf("%v", node)
+	return buf.String()
+}
+
+func parseIndex(mode GeneratorMode, stmt *sqlparser.DDL) (Index, error) {
 	if stmt.IndexSpec == nil {
 		return Index{}, fmt.Errorf("stmt.IndexSpec was null on parseIndex: %#v", stmt)
 	}
@@ -237,7 +274,7 @@ func parseIndex(stmt *sqlparser.DDL) (Index, error) {
 		if parenExpr, ok := expr.(*sqlparser.ParenExpr); ok {
 			expr = parenExpr.Expr
 		}
-		where = sqlparser.String(expr)
+		where = formatNode(mode, expr)
 	}
 
 	includedColumns := []string{}
@@ -311,7 +348,7 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 				table:     table,
 			}, nil
 		} else if stmt.Action == "create index" {
-			index, err := parseIndex(stmt)
+			index, err := parseIndex(mode, stmt)
 			if err != nil {
 				return nil, err
 			}
@@ -321,7 +358,7 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 				index:     index,
 			}, nil
 		} else if stmt.Action == "add index" {
-			index, err := parseIndex(stmt)
+			index, err := parseIndex(mode, stmt)
 			if err != nil {
 				return nil, err
 			}
@@ -331,7 +368,7 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 				index:     index,
 			}, nil
 		} else if stmt.Action == "add primary key" {
-			index, err := parseIndex(stmt)
+			index, err := parseIndex(mode, stmt)
 			if err != nil {
 				return nil, err
 			}
@@ -371,10 +408,10 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 			}
 			var using, withCheck string
 			if stmt.Policy.Using != nil {
-				using = sqlparser.String(stmt.Policy.Using.Expr)
+				using = formatNode(mode, stmt.Policy.Using.Expr)
 			}
 			if stmt.Policy.WithCheck != nil {
-				withCheck = sqlparser.String(stmt.Policy.WithCheck.Expr)
+				withCheck = formatNode(mode, stmt.Policy.WithCheck.Expr)
 			}
 			return &AddPolicy{
 				statement: ddl,
@@ -392,12 +429,12 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 			return &View{
 				statement:  ddl,
 				name:       stmt.View.Name.Name.String(),
-				definition: sqlparser.String(stmt.View.Definition),
+				definition: formatNode(mode, stmt.View.Definition),
 			}, nil
 		} else if stmt.Action == "create trigger" {
 			body := []string{}
 			for _, triggerStatement := range stmt.Trigger.Body {
-				body = append(body, sqlparser.String(triggerStatement))
+				body = append(body, formatNode(mode, triggerStatement))
 			}
 
 			return &Trigger{
-- 
2.43.0


From 1199c798e9d48b9fa379553bf20cc7607132009f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:22 +0000
Subject: [PATCH 15/61] fix: treat a backslash in a string as an escape
 character for MySQL only

---
 sqlparser/token.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sqlparser/token.go b/sqlparser/token.go
index fb64320..5ac6f1f 100644
--- a/sqlparser/token.go
+++ b/sqlparser/token.go
@@ -850,6 +850,10 @@ exit:
 
 func (tkn *Tokenizer) scanString(delim uint16, typ int) (int, []byte) {
 	var buffer bytes2.Buffer
+	// Only MySQL has backslash escapes.
+	isEscape := func(ch uint16) bool {
+		return ch == '\\' && tkn.mode == ParserModeMysql
+	}
 	for {
 		ch := tkn.lastChar
 		if ch == eofChar {
@@ -857,14 +861,14 @@ func (tkn *Tokenizer) scanString(delim uint16, typ int) (int, []byte) {
 			return LEX_ERROR, buffer.Bytes()
 		}
 
-		if ch != delim && ch != '\\' {
+		if ch != delim && !isEscape(ch) {
 			buffer.WriteByte(byte(ch))
 
 			// Scan ahead to the next interesting character.
 			start := tkn.bufPos
 			for ; tkn.bufPos < tkn.bufSize; tkn.bufPos++ {
 				ch = uint16(tkn.buf[tkn.bufPos])
-				if ch == delim || ch == '\\' {
+				if ch == delim || isEscape(ch) {
 					break
 				}
 			}
@@ -884,7 +888,7 @@ func (tkn *Tokenizer) scanString(delim uint16, typ int) (int, []byte) {
 		}
 		tkn.next() // Read one past the delim or escape character.
 
-		if ch == '\\' {
+		if isEscape(ch) {
 			if tkn.lastChar == eofChar {
 				// String terminates mid escape character.
 				return LEX_ERROR, buffer.Bytes()
-- 
2.43.0


From b5c39bef597ab40c1a3c622e3669a857e1eb89cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:22 +0000
Subject: [PATCH 16/61] fix: separate the indexes of a SQL Server table with
 semicolons

---
 adapter/mssql/mssql.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index 034ac88..afb4b3f 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -157,6 +157,7 @@ func buildDumpTableDDL(table string, columns []column, indexDefs []*indexDef, fo
 			}
 			fmt.Fprint(&queryBuilder, " )")
 		}
+		fmt.Fprint(&queryBuilder, ";\n")
 	}
 	return strings.TrimSuffix(queryBuilder.String(), ";\n")
 }
-- 
2.43.0


From 7060eba3188c4dcaa14589e5ebb873dfd8904d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:22 +0000
Subject: [PATCH 17/61] fix: read SQL Server columns and indexes in a defined
 order

---
 adapter/mssql/mssql.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index afb4b3f..5591245 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -206,7 +206,8 @@ FROM sys.columns c WITH(NOLOCK)
 JOIN sys.types tp WITH(NOLOCK) ON c.user_type_id = tp.user_type_id
 LEFT JOIN sys.check_constraints cc WITH(NOLOCK) ON c.[object_id] = cc.parent_object_id AND cc.parent_column_id = c.column_id
 LEFT JOIN sys.identity_columns ic WITH(NOLOCK) ON c.[object_id] = ic.[object_id] AND ic.[column_id] = c.[column_id]
-WHERE c.[object_id] = OBJECT_ID('%s.%s', 'U')`, schema, table)
+WHERE c.[object_id] = OBJECT_ID('%s.%s', 'U')
+ORDER BY c.column_id`, schema, table)
 
 	rows, err := d.db.Query(query)
 	if err != nil {
@@ -286,7 +287,8 @@ func (d *MssqlDatabase) getIndexDefs(table string) ([]*indexDef, error) {
 	ind.allow_page_locks
 FROM sys.indexes ind
 INNER JOIN sys.stats st ON ind.object_id = st.object_id AND ind.index_id = st.stats_id
-WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
+WHERE ind.object_id = OBJECT_ID('[%s].[%s]')
+ORDER BY ind.index_id`, schema, table)
 
 	rows, err := d.db.Query(query)
 	if err != nil {
@@ -294,6 +296,7 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 	}
 
 	indexDefMap := make(map[string]*indexDef)
+	indexDefs := make([]*indexDef, 0)
 	var indexName, typeDesc, fillfactor string
 	var isPrimary, isUnique, padIndex, ignoreDupKey, noRecompute, incremental, rowLocks, pageLocks bool
 	for rows.Next() {
@@ -314,6 +317,7 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 
 		definition := &indexDef{name: indexName, columns: []string{}, primary: isPrimary, unique: isUnique, indexType: typeDesc, included: []string{}, options: options}
 		indexDefMap[indexName] = definition
+		indexDefs = append(indexDefs, definition)
 	}
 	if err := rows.Err(); err != nil {
 		return nil, err
@@ -328,7 +332,8 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 	ic.is_included_column
 FROM sys.indexes ind
 INNER JOIN sys.index_columns ic ON ind.object_id = ic.object_id AND ind.index_id = ic.index_id
-WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
+WHERE ind.object_id = OBJECT_ID('[%s].[%s]')
+ORDER BY ic.index_id, ic.key_ordinal, ic.index_column_id`, schema, table)
 
 	rows, err = d.db.Query(query)
 	if err != nil {
@@ -359,10 +364,6 @@ WHERE ind.object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 		return nil, err
 	}
 
-	indexDefs := make([]*indexDef, 0)
-	for _, definition := range indexDefMap {
-		indexDefs = append(indexDefs, definition)
-	}
 	return indexDefs, nil
 }
 
-- 
2.43.0


From 4a21f3ba476dccecb631bfb581fedae727f2312c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:54 +0000
Subject: [PATCH 18/61] fix: detect a change of the scale of a column

---
 schema/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index 76448ff..a3a6452 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1280,8 +1280,8 @@ func (g *Generator) haveSameDataType(current Column, desired Column) bool {
 	return g.normalizeDataType(current.typeName) == g.normalizeDataType(desired.typeName) &&
 		reflect.DeepEqual(current.enumValues, desired.enumValues) &&
 		(current.length == nil || desired.length == nil || current.length.intVal == desired.length.intVal) && // detect change column only when both are set explicitly. TODO: maybe `current.length == nil` case needs another care
+		(current.scale == nil || desired.scale == nil || current.scale.intVal == desired.scale.intVal) &&
 		current.array == desired.array
-	// TODO: scale
 }
 
 func areSameCheckDefinition(checkA *CheckDefinition, checkB *CheckDefinition) bool {
-- 
2.43.0


From 4dce3570813a1229c61161c86b3f05474e07bf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 19/61] fix: detect a change of the fractional seconds of a
 MySQL column

---
 schema/generator.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index a3a6452..2e94808 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1280,10 +1280,30 @@ func (g *Generator) haveSameDataType(current Column, desired Column) bool {
 	return g.normalizeDataType(current.typeName) == g.normalizeDataType(desired.typeName) &&
 		reflect.DeepEqual(current.enumValues, desired.enumValues) &&
 		(current.length == nil || desired.length == nil || current.length.intVal == desired.length.intVal) && // detect change column only when both are set explicitly. TODO: maybe `current.length == nil` case needs another care
+		g.haveSameFractionalSeconds(current, desired) &&
 		(current.scale == nil || desired.scale == nil || current.scale.intVal == desired.scale.intVal) &&
 		current.array == desired.array
 }
 
+// For MySQL's temporal types, no length means 0. It is not a display width.
+func (g *Generator) haveSameFractionalSeconds(current Column, desired Column) bool {
+	if g.mode != GeneratorModeMysql {
+		return true
+	}
+	switch strings.ToLower(desired.typeName) {
+	case "datetime", "timestamp", "time":
+		digits := func(length *Value) int {
+			if length == nil {
+				return 0
+			}
+			return length.intVal
+		}
+		return digits(current.length) == digits(desired.length)
+	default:
+		return true
+	}
+}
+
 func areSameCheckDefinition(checkA *CheckDefinition, checkB *CheckDefinition) bool {
 	if checkA == nil && checkB == nil {
 		return true
-- 
2.43.0


From f110f2984be5c7fe1dbe1c5ab1827c56f6350cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:57 +0000
Subject: [PATCH 20/61] fix: a primary key on the table level implies NOT NULL
 too in MySQL

---
 schema/generator.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 2e94808..6014ec1 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -275,7 +275,7 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 				changeOrder := currentPos > desiredPos && currentPos-desiredPos > len(currentTable.columns)-len(desired.table.columns)
 
 				// Change column type and orders, *except* AUTO_INCREMENT and UNIQUE KEY.
-				if !g.haveSameColumnDefinition(*currentColumn, desiredColumn) || !areSameDefaultValue(currentColumn.defaultDef, desiredColumn.defaultDef) || changeOrder {
+				if !g.haveSameColumnDefinition(*currentColumn, desiredColumn, isPrimaryKey(desiredColumn, desired.table)) || !areSameDefaultValue(currentColumn.defaultDef, desiredColumn.defaultDef) || changeOrder {
 					definition, err := g.generateColumnDefinition(desiredColumn, false)
 					if err != nil {
 						return ddls, err
@@ -1264,11 +1264,11 @@ func findTriggerByName(triggers []*Trigger, name string) *Trigger {
 	return nil
 }
 
-func (g *Generator) haveSameColumnDefinition(current Column, desired Column) bool {
+func (g *Generator) haveSameColumnDefinition(current Column, desired Column, desiredPrimary bool) bool {
 	// Not examining AUTO_INCREMENT and UNIQUE KEY because it'll be added in a later stage
 	return g.haveSameDataType(current, desired) &&
 		(current.unsigned == desired.unsigned) &&
-		((current.notNull != nil && *current.notNull) == ((desired.notNull != nil && *desired.notNull) || desired.keyOption == ColumnKeyPrimary)) && // `PRIMARY KEY` implies `NOT NULL`
+		((current.notNull != nil && *current.notNull) == ((desired.notNull != nil && *desired.notNull) || desiredPrimary)) && // `PRIMARY KEY` implies `NOT NULL`
 		(current.timezone == desired.timezone) &&
 		(current.check == desired.check) &&
 		(desired.charset == "" || current.charset == desired.charset) && // detect change column only when set explicitly. TODO: can we calculate implicit charset?
-- 
2.43.0


From 7cf74a3f8ecc553aa42d90ef2c7a578d1b983b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:31 +0000
Subject: [PATCH 21/61] fix: do not crash on an index with USING when it has to
 be added

---
 schema/parser.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/schema/parser.go b/schema/parser.go
index 57c7491..c9b4ea1 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -153,7 +153,7 @@ func parseTable(mode GeneratorMode, stmt *sqlparser.DDL) (Table, error) {
 				indexOptions,
 				IndexOption{
 					optionName: option.Name,
-					value:      parseValue(option.Value),
+					value:      parseIndexOptionValue(option),
 				},
 			)
 		}
@@ -246,6 +246,14 @@ func formatNode(mode GeneratorMode, node sqlparser.SQLNode) string {
 	return buf.String()
 }
 
+func parseIndexOptionValue(option *sqlparser.IndexOption) *Value {
+	if option.Using != "" {
+		using := strings.ToLower(option.Using)
+		return &Value{valueType: ValueTypeStr, strVal: using, raw: []byte(using)}
+	}
+	return parseValue(option.Value)
+}
+
 func parseIndex(mode GeneratorMode, stmt *sqlparser.DDL) (Index, error) {
 	if stmt.IndexSpec == nil {
 		return Index{}, fmt.Errorf("stmt.IndexSpec was null on parseIndex: %#v", stmt)
@@ -288,7 +296,7 @@ func parseIndex(mode GeneratorMode, stmt *sqlparser.DDL) (Index, error) {
 			indexOptions,
 			IndexOption{
 				optionName: option.Name,
-				value:      parseValue(option.Value),
+				value:      parseIndexOptionValue(option),
 			},
 		)
 	}
-- 
2.43.0


From 8cc1d5a9300f50f59b0bf9b82648342626b463f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:34 +0000
Subject: [PATCH 22/61] fix: detect a change of the columns of a foreign key

---
 schema/generator.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index 6014ec1..813034d 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1467,7 +1467,12 @@ func (g *Generator) areSameForeignKeys(foreignKeyA ForeignKey, foreignKeyB Forei
 	if foreignKeyA.notForReplication != foreignKeyB.notForReplication {
 		return false
 	}
-	// TODO: check index, reference
+	if !reflect.DeepEqual(foreignKeyA.indexColumns, foreignKeyB.indexColumns) {
+		return false
+	}
+	if foreignKeyA.referenceName != foreignKeyB.referenceName || !reflect.DeepEqual(foreignKeyA.referenceColumns, foreignKeyB.referenceColumns) {
+		return false
+	}
 	return true
 }
 
-- 
2.43.0


From 823d15b995d4f759e81b0814f53aabe8998b1957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:00 +0000
Subject: [PATCH 23/61] fix: drop an index in another PostgreSQL schema by its
 qualified name

---
 schema/generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index 813034d..7ca65f8 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1016,6 +1016,9 @@ func (g *Generator) generateDropIndex(tableName string, indexName string) string
 	case GeneratorModeMysql:
 		return fmt.Sprintf("ALTER TABLE %s DROP INDEX %s", g.escapeTableName(tableName), g.escapeSQLName(indexName))
 	case GeneratorModePostgres:
+		if schemaTable := strings.SplitN(tableName, ".", 2); len(schemaTable) == 2 && schemaTable[0] != "public" {
+			return fmt.Sprintf("DROP INDEX %s.%s", g.escapeSQLName(schemaTable[0]), g.escapeSQLName(indexName))
+		}
 		return fmt.Sprintf("DROP INDEX %s", g.escapeSQLName(indexName))
 	case GeneratorModeMssql:
 		return fmt.Sprintf("DROP INDEX %s ON %s", g.escapeSQLName(indexName), g.escapeTableName(tableName))
-- 
2.43.0


From 286287350ec77b4ca02ab891130945436e8cdd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:00 +0000
Subject: [PATCH 24/61] fix: compare every part of a policy

---
 schema/generator.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 7ca65f8..a1aaa73 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1486,11 +1486,11 @@ func areSamePolicies(policyA, policyB Policy) bool {
 	if strings.ToLower(policyA.permissive) != strings.ToLower(policyB.permissive) {
 		return false
 	}
-	if strings.ToLower(policyA.using) != strings.ToLower(policyB.using) {
-		return fmt.Sprintf("(%s)", policyA.using) == policyB.using
+	if strings.ToLower(policyA.using) != strings.ToLower(policyB.using) && fmt.Sprintf("(%s)", policyA.using) != policyB.using {
+		return false
 	}
-	if strings.ToLower(policyA.withCheck) != strings.ToLower(policyB.withCheck) {
-		return fmt.Sprintf("(%s)", policyA.withCheck) == policyB.withCheck
+	if strings.ToLower(policyA.withCheck) != strings.ToLower(policyB.withCheck) && fmt.Sprintf("(%s)", policyA.withCheck) != policyB.withCheck {
+		return false
 	}
 	if len(policyA.roles) != len(policyB.roles) {
 		return false
-- 
2.43.0


From f4f8c0d59b2ce09640a36cb9de6a7f09a3daafd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 25/61] fix: keep the schema of SQL Server tables

---
 schema/parser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/schema/parser.go b/schema/parser.go
index c9b4ea1..2470088 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -500,11 +500,14 @@ func normalizeCollate(collate string, table sqlparser.TableSpec) string {
 // Qualify Postgres schema
 func normalizedTableName(mode GeneratorMode, tableName sqlparser.TableName) string {
 	table := tableName.Name.String()
-	if mode == GeneratorModePostgres {
+	switch mode {
+	case GeneratorModePostgres, GeneratorModeMssql:
 		if len(tableName.Qualifier.String()) > 0 {
 			table = tableName.Qualifier.String() + "." + table
-		} else {
+		} else if mode == GeneratorModePostgres {
 			table = "public." + table
+		} else {
+			table = "dbo." + table
 		}
 	}
 	return table
-- 
2.43.0


From 37eef9ab054ea1477d7d084fd82424ad07c07453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:20 +0000
Subject: [PATCH 26/61] fix: drop the old primary key of a SQL Server table
 before adding another

---
 schema/generator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index a1aaa73..36e3fa3 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -452,6 +452,10 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 			case GeneratorModePostgres:
 				tableName := strings.SplitN(desired.table.name, ".", 2)[1] // without schema
 				ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), g.escapeSQLName(tableName+"_pkey")))
+			case GeneratorModeMssql:
+				if desiredPrimaryKey != nil { // otherwise it's dropped as an obsoleted index
+					ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), g.escapeSQLName(currentPrimaryKey.name)))
+				}
 			default:
 			}
 		}
@@ -729,7 +733,7 @@ func (g *Generator) generateDDLsForAbsentIndex(currentIndex Index, currentTable
 		if primaryKeyColumn == nil {
 			// If nil, it will be `DROP COLUMN`-ed and we can usually ignore it.
 			// However, it seems like you need to explicitly drop it first for MSSQL.
-			if g.mode == GeneratorModeMssql && (primaryKeyColumn == nil || primaryKeyColumn.name != currentIndex.columns[0].column) {
+			if g.mode == GeneratorModeMssql && desiredTable.PrimaryKey() == nil {
 				ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(currentTable.name), g.escapeSQLName(currentIndex.name)))
 			}
 		} else if primaryKeyColumn.name != currentIndex.columns[0].column { // TODO: check length of currentIndex.columns
-- 
2.43.0


From 5f98c6989b1aca6bc7da83cb3f308309a7b64f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:20 +0000
Subject: [PATCH 27/61] fix: drop the check of a SQL Server column before the
 column

---
 schema/generator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index 36e3fa3..4d74169 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -217,9 +217,13 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 func (g *Generator) generateDDLsForAbsentColumn(currentTable *Table, columnName string) []string {
 	ddls := []string{}
 
-	// Only MSSQL has column default constraints. They need to be deleted before dropping the column.
+	// Only MSSQL has column default constraints. They need to be deleted before dropping the column, and so do column checks.
 	if g.mode == GeneratorModeMssql {
 		for _, column := range currentTable.columns {
+			if column.name == columnName && column.check != nil && column.check.constraintName != "" {
+				ddl := fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(currentTable.name), g.escapeSQLName(column.check.constraintName))
+				ddls = append(ddls, ddl)
+			}
 			if column.name == columnName && column.defaultDef != nil && column.defaultDef.constraintName != "" {
 				ddl := fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(currentTable.name), g.escapeSQLName(column.defaultDef.constraintName))
 				ddls = append(ddls, ddl)
-- 
2.43.0


From e463f1d7c77432f0d00760bc0abdb87acd340bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:20 +0000
Subject: [PATCH 28/61] fix: keep string literals apart when comparing views,
 triggers and policies

---
 schema/generator.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 4d74169..4594fc7 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -640,7 +640,7 @@ func (g *Generator) generateDDLsForCreateView(viewName string, desiredView *View
 		ddls = append(ddls, desiredView.statement)
 	} else {
 		// View found. If it's different, create or replace view.
-		if strings.ToLower(currentView.definition) != strings.ToLower(desiredView.definition) {
+		if lowerCode(currentView.definition) != lowerCode(desiredView.definition) {
 			if g.mode == GeneratorModeSQLite3 || g.mode == GeneratorModeMssql {
 				ddls = append(ddls, fmt.Sprintf("DROP VIEW %s", g.escapeTableName(viewName)))
 				ddls = append(ddls, fmt.Sprintf("CREATE VIEW %s AS %s", g.escapeTableName(viewName), desiredView.definition))
@@ -1385,8 +1385,8 @@ func areSameTriggerDefinition(triggerA, triggerB *Trigger) bool {
 		return false
 	}
 	for i := 0; i < len(triggerA.body); i++ {
-		bodyA := strings.ToLower(strings.Replace(triggerA.body[i], " ", "", -1))
-		bodyB := strings.ToLower(strings.Replace(triggerB.body[i], " ", "", -1))
+		bodyA := removeSpaces(lowerCode(triggerA.body[i]))
+		bodyB := removeSpaces(lowerCode(triggerB.body[i]))
 		if bodyA != bodyB {
 			return false
 		}
@@ -1487,6 +1487,23 @@ func (g *Generator) areSameForeignKeys(foreignKeyA ForeignKey, foreignKeyB Forei
 	return true
 }
 
+// Convert the code of a view, trigger or policy to lower case, except for its string literals.
+func lowerCode(code string) string {
+	return mapCode(code, strings.ToLower)
+}
+
+func removeSpaces(code string) string {
+	return mapCode(code, func(s string) string { return strings.Replace(s, " ", "", -1) })
+}
+
+func mapCode(code string, f func(string) string) string {
+	parts := strings.Split(code, "'")
+	for i := 0; i < len(parts); i += 2 {
+		parts[i] = f(parts[i])
+	}
+	return strings.Join(parts, "'")
+}
+
 func areSamePolicies(policyA, policyB Policy) bool {
 	if strings.ToLower(policyA.scope) != strings.ToLower(policyB.scope) {
 		return false
@@ -1494,10 +1511,10 @@ func areSamePolicies(policyA, policyB Policy) bool {
 	if strings.ToLower(policyA.permissive) != strings.ToLower(policyB.permissive) {
 		return false
 	}
-	if strings.ToLower(policyA.using) != strings.ToLower(policyB.using) && fmt.Sprintf("(%s)", policyA.using) != policyB.using {
+	if lowerCode(policyA.using) != lowerCode(policyB.using) && fmt.Sprintf("(%s)", policyA.using) != policyB.using {
 		return false
 	}
-	if strings.ToLower(policyA.withCheck) != strings.ToLower(policyB.withCheck) && fmt.Sprintf("(%s)", policyA.withCheck) != policyB.withCheck {
+	if lowerCode(policyA.withCheck) != lowerCode(policyB.withCheck) && fmt.Sprintf("(%s)", policyA.withCheck) != policyB.withCheck {
 		return false
 	}
 	if len(policyA.roles) != len(policyB.roles) {
-- 
2.43.0


From 1b70d0f53dd274d7eaa7f9ac988e5d08d891c9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:20 +0000
Subject: [PATCH 29/61] fix: detect a change of the time zone of a PostgreSQL
 column

---
 schema/generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index 4594fc7..81f2fa4 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -306,6 +306,9 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 				if !g.haveSameDataType(*currentColumn, desiredColumn) {
 					// Change type
 					ddl := fmt.Sprintf("ALTER TABLE %s ALTER COLUMN %s TYPE %s", g.escapeTableName(desired.table.name), g.escapeSQLName(currentColumn.name), generateDataType(desiredColumn))
+					if desiredColumn.timezone {
+						ddl += " WITH TIME ZONE"
+					}
 					ddls = append(ddls, ddl)
 				}
 
@@ -1292,6 +1295,7 @@ func (g *Generator) haveSameDataType(current Column, desired Column) bool {
 		reflect.DeepEqual(current.enumValues, desired.enumValues) &&
 		(current.length == nil || desired.length == nil || current.length.intVal == desired.length.intVal) && // detect change column only when both are set explicitly. TODO: maybe `current.length == nil` case needs another care
 		g.haveSameFractionalSeconds(current, desired) &&
+		current.timezone == desired.timezone &&
 		(current.scale == nil || desired.scale == nil || current.scale.intVal == desired.scale.intVal) &&
 		current.array == desired.array
 }
-- 
2.43.0


From 0c7a94d872e0a063d2f8bb08ce400fe81c30713c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:38 +0000
Subject: [PATCH 30/61] fix: detect a change of the length of a PostgreSQL
 character column

---
 schema/generator.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index 81f2fa4..fddc1c1 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1296,6 +1296,7 @@ func (g *Generator) haveSameDataType(current Column, desired Column) bool {
 		(current.length == nil || desired.length == nil || current.length.intVal == desired.length.intVal) && // detect change column only when both are set explicitly. TODO: maybe `current.length == nil` case needs another care
 		g.haveSameFractionalSeconds(current, desired) &&
 		current.timezone == desired.timezone &&
+		g.haveSameCharacterLength(current, desired) &&
 		(current.scale == nil || desired.scale == nil || current.scale.intVal == desired.scale.intVal) &&
 		current.array == desired.array
 }
@@ -1319,6 +1320,28 @@ func (g *Generator) haveSameFractionalSeconds(current Column, desired Column) bo
 	}
 }
 
+// For PostgreSQL's character types, no length means 1 or unlimited.
+func (g *Generator) haveSameCharacterLength(current Column, desired Column) bool {
+	if g.mode != GeneratorModePostgres || desired.array {
+		return true
+	}
+	switch g.normalizeDataType(desired.typeName) {
+	case "char", "character", "varchar", "character varying":
+		length := func(column Column) int {
+			if column.length != nil {
+				return column.length.intVal
+			}
+			if dataType := g.normalizeDataType(column.typeName); dataType == "char" || dataType == "character" {
+				return 1
+			}
+			return 0
+		}
+		return length(current) == length(desired)
+	default:
+		return true
+	}
+}
+
 func areSameCheckDefinition(checkA *CheckDefinition, checkB *CheckDefinition) bool {
 	if checkA == nil && checkB == nil {
 		return true
-- 
2.43.0


From 6a0b8a8026be96446d847972e4f4900014174129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:08 +0000
Subject: [PATCH 31/61] fix: read back the default values PostgreSQL shows with
 a cast

---
 adapter/postgres/postgres.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index cdaf784..ac42379 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -213,6 +213,27 @@ func (c *column) GetDataType() string {
 	}
 }
 
+var (
+	literalCast    = regexp.MustCompile(`^(B?'(?:[^']|'')*')::(smallint|integer|bigint|numeric|real|double precision|date|time with(?:out)? time zone|interval|jsonb?|uuid|"bit"|bit varying)$`)
+	numericLiteral = regexp.MustCompile(`^'-?[0-9]+(\.[0-9]+)?'$`)
+)
+
+// PostgreSQL shows the type of a literal, for example '-1'::integer. The column has a type
+// anyway, and the parser doesn't know all of them.
+func trimLiteralCast(defaultValue string) string {
+	match := literalCast.FindStringSubmatch(defaultValue)
+	if match == nil {
+		return defaultValue
+	}
+	switch match[2] {
+	case "smallint", "integer", "bigint", "numeric", "real", "double precision":
+		if numericLiteral.MatchString(match[1]) {
+			return strings.Trim(match[1], "'")
+		}
+	}
+	return match[1]
+}
+
 func (d *PostgresDatabase) getColumns(table string) ([]column, error) {
 	const query = `SELECT s.column_name, s.column_default, s.is_nullable, s.character_maximum_length,
 	CASE WHEN s.data_type IN ('ARRAY', 'USER-DEFINED') THEN format_type(f.atttypid, f.atttypmod) ELSE s.data_type END,
@@ -254,7 +275,7 @@ WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum >
 		}
 		col.Name = strings.Trim(colName, `" `)
 		if colDefault != nil {
-			col.Default = *colDefault
+			col.Default = trimLiteralCast(*colDefault)
 		}
 		col.IsUnique = isUnique
 		if colDefault != nil && strings.HasPrefix(*colDefault, "nextval(") {
-- 
2.43.0


From 68e3c48d75626779475e4751aea9caa85a13dc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:54 +0000
Subject: [PATCH 32/61] fix: apply PostgreSQL's defaults for the kind and
 command of a policy

---
 schema/generator.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index fddc1c1..7c43c67 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1531,11 +1531,18 @@ func mapCode(code string, f func(string) string) string {
 	return strings.Join(parts, "'")
 }
 
+func normalizePolicyOption(option string, defaultOption string) string {
+	if option == "" {
+		return defaultOption
+	}
+	return strings.ToLower(option)
+}
+
 func areSamePolicies(policyA, policyB Policy) bool {
-	if strings.ToLower(policyA.scope) != strings.ToLower(policyB.scope) {
+	if normalizePolicyOption(policyA.scope, "all") != normalizePolicyOption(policyB.scope, "all") {
 		return false
 	}
-	if strings.ToLower(policyA.permissive) != strings.ToLower(policyB.permissive) {
+	if normalizePolicyOption(policyA.permissive, "permissive") != normalizePolicyOption(policyB.permissive, "permissive") {
 		return false
 	}
 	if lowerCode(policyA.using) != lowerCode(policyB.using) && fmt.Sprintf("(%s)", policyA.using) != policyB.using {
-- 
2.43.0


From 2b44e77442464fa38d080dc35ec180f4aa6cda38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:20 +0000
Subject: [PATCH 33/61] fix: write a cast in a form every database understands

---
 schema/parser.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/schema/parser.go b/schema/parser.go
index 2470088..f3343e4 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -209,7 +209,7 @@ func parseTable(mode GeneratorMode, stmt *sqlparser.DDL) (Table, error) {
 	}, nil
 }
 
-// Format a part of a statement. sqlparser quotes identifiers and strings for MySQL, which the others don't understand.
+// Format a part of a statement. sqlparser quotes identifiers and strings and converts for MySQL, which the others don't understand.
 func formatNode(mode GeneratorMode, node sqlparser.SQLNode) string {
 	if mode == GeneratorModeMysql {
 		return sqlparser.String(node)
@@ -234,6 +234,12 @@ func formatNode(mode GeneratorMode, node sqlparser.SQLNode) string {
 			} else {
 				node.Format(buf)
 			}
+		case *sqlparser.ConvertExpr:
+			if node.Expr != nil {
+				buf.Myprintf("cast(%v as %v)", node.Expr, node.Type)
+			} else {
+				node.Format(buf)
+			}
 		case sqlparser.ColIdent:
 			buf.WriteString(quoteID(node, node.String()))
 		case sqlparser.TableIdent:
-- 
2.43.0


From 7f42c9f58da57fe0d2f4544047fefe71532a4021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:02 +0000
Subject: [PATCH 34/61] fix: smallserial columns are NOT NULL

---
 schema/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index 7c43c67..64ea9fe 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1083,7 +1083,7 @@ func (g *Generator) notNull(column Column) bool {
 	if column.notNull == nil {
 		switch g.mode {
 		case GeneratorModePostgres:
-			return column.typeName == "serial" || column.typeName == "bigserial"
+			return column.typeName == "smallserial" || column.typeName == "serial" || column.typeName == "bigserial"
 		default:
 			return false
 		}
-- 
2.43.0


From 291eef7860f80e155a9f1ca61593174ec4c29c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:16 +0000
Subject: [PATCH 35/61] fix: do not revert a changed column when its
 AUTO_INCREMENT goes

---
 schema/generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index 64ea9fe..a8eeb34 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -439,6 +439,9 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 			desiredColumn := findColumnByName(desired.table.columns, currentColumn.name)
 			if currentColumn.autoIncrement && (desiredColumn == nil || !desiredColumn.autoIncrement) {
 				currentColumn.autoIncrement = false
+				if desiredColumn != nil {
+					currentColumn = *desiredColumn
+				}
 				definition, err := g.generateColumnDefinition(currentColumn, false)
 				if err != nil {
 					return ddls, err
-- 
2.43.0


From 09590b4ff3770cf5003679b0af23da1b2c72365a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:32 +0000
Subject: [PATCH 36/61] fix: show the length of every SQL Server type that has
 one

---
 adapter/mssql/mssql.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index 5591245..3e7334b 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"net/url"
 	"regexp"
+	"strconv"
 	"strings"
 
 	_ "github.com/denisenkom/go-mssqldb"
@@ -78,7 +79,7 @@ func buildDumpTableDDL(table string, columns []column, indexDefs []*indexDef, fo
 		}
 		fmt.Fprint(&queryBuilder, "\n"+indent)
 		fmt.Fprintf(&queryBuilder, "%s %s", col.Name, col.dataType)
-		if col.dataType == "char" || col.dataType == "varchar" || col.dataType == "binary" || col.dataType == "varbinary" {
+		if col.Length != "" {
 			fmt.Fprintf(&queryBuilder, "(%s)", col.Length)
 		}
 		if !col.Nullable {
@@ -191,6 +192,8 @@ func (d *MssqlDatabase) getColumns(table string) ([]column, error) {
 	c.name,
 	[type_name] = tp.name,
 	c.max_length,
+	c.precision,
+	c.scale,
 	c.is_nullable,
 	c.is_identity,
 	ic.seed_value,
@@ -218,16 +221,16 @@ ORDER BY c.column_id`, schema, table)
 	cols := []column{}
 	for rows.Next() {
 		col := column{}
-		var colName, dataType, maxLen, defaultId string
+		var colName, dataType, maxLen, precision, scale, defaultId string
 		var seedValue, incrementValue, defaultName, defaultVal, checkName, checkDefinition *string
 		var isNullable, isIdentity bool
 		var identityNotForReplication, checkNotForReplication *bool
-		err = rows.Scan(&colName, &dataType, &maxLen, &isNullable, &isIdentity, &seedValue, &incrementValue, &identityNotForReplication, &defaultId, &defaultName, &defaultVal, &checkName, &checkDefinition, &checkNotForReplication)
+		err = rows.Scan(&colName, &dataType, &maxLen, &precision, &scale, &isNullable, &isIdentity, &seedValue, &incrementValue, &identityNotForReplication, &defaultId, &defaultName, &defaultVal, &checkName, &checkDefinition, &checkNotForReplication)
 		if err != nil {
 			return nil, err
 		}
 		col.Name = colName
-		col.Length = maxLen
+		col.Length = typeLength(dataType, maxLen, precision, scale)
 		if defaultId != "0" {
 			col.DefaultName = *defaultName
 			col.DefaultVal = *defaultVal
@@ -256,6 +259,24 @@ ORDER BY c.column_id`, schema, table)
 	return cols, nil
 }
 
+// typeLength returns what is written between the parentheses of a type, if anything.
+func typeLength(dataType, maxLen, precision, scale string) string {
+	switch dataType {
+	case "char", "varchar", "binary", "varbinary":
+		return maxLen
+	case "nchar", "nvarchar":
+		// max_length is in bytes, and -1 for nvarchar(max)
+		if bytes, err := strconv.Atoi(maxLen); err == nil && bytes > 0 {
+			return strconv.Itoa(bytes / 2)
+		}
+	case "decimal", "numeric":
+		return precision + ", " + scale
+	case "datetimeoffset", "time":
+		return scale
+	}
+	return ""
+}
+
 type indexDef struct {
 	name      string
 	columns   []string
-- 
2.43.0


From c2bb9934951e84a9194f05669a338d13702e6049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:05 +0000
Subject: [PATCH 37/61] fix: skip only what drops something with --skip-drop

---
 adapter/database.go | 17 ++++++++++++++++-
 sqldef.go           |  3 +--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/adapter/database.go b/adapter/database.go
index bb2e6ec..e73fb91 100644
--- a/adapter/database.go
+++ b/adapter/database.go
@@ -4,6 +4,7 @@ package adapter
 import (
 	"database/sql"
 	"fmt"
+	"regexp"
 	"strings"
 )
 
@@ -57,6 +58,20 @@ func DumpDDLs(d Database) (string, error) {
 	return strings.Join(ddls, ";\n\n"), nil
 }
 
+var (
+	quotedText = regexp.MustCompile("'[^']*'|\"[^\"]*\"|`[^`]*`|\\[[^\\]]*\\]")
+	dropWord   = regexp.MustCompile(`\bDROP\b`)
+)
+
+// DropsSomething returns whether --skip-drop skips the DDL. The word DROP in a name, in a string,
+// or in the body of a view or a trigger doesn't make it one.
+func DropsSomething(ddl string) bool {
+	if strings.HasPrefix(strings.ToUpper(ddl), "CREATE ") {
+		return false
+	}
+	return dropWord.MatchString(quotedText.ReplaceAllString(ddl, ""))
+}
+
 func RunDDLs(d Database, ddls []string, skipDrop bool) error {
 	transaction, err := d.DB().Begin()
 	if err != nil {
@@ -64,7 +79,7 @@ func RunDDLs(d Database, ddls []string, skipDrop bool) error {
 	}
 	fmt.Println("-- Apply --")
 	for _, ddl := range ddls {
-		if skipDrop && strings.Contains(ddl, "DROP") {
+		if skipDrop && DropsSomething(ddl) {
 			fmt.Printf("-- Skipped: %s;\n", ddl)
 			continue
 		}
diff --git a/sqldef.go b/sqldef.go
index b5e7241..0a14525 100644
--- a/sqldef.go
+++ b/sqldef.go
@@ -5,7 +5,6 @@ import (
 	"io/ioutil"
 	"log"
 	"os"
-	"strings"
 
 	"github.com/k0kubun/sqldef/adapter"
 	"github.com/k0kubun/sqldef/schema"
@@ -85,7 +84,7 @@ func readFile(filepath string) (string, error) {
 func showDDLs(ddls []string, skipDrop bool) {
 	fmt.Println("-- dry run --")
 	for _, ddl := range ddls {
-		if skipDrop && strings.Contains(ddl, "DROP") {
+		if skipDrop && adapter.DropsSomething(ddl) {
 			fmt.Printf("-- Skipped: %s;\n", ddl)
 			continue
 		}
-- 
2.43.0


From 6410560ab9f4b347835f3a9a3780a7bebc6d09f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 38/61] fix: add the foreign keys given as ALTER TABLE
 statements

---
 schema/generator.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/schema/generator.go b/schema/generator.go
index a8eeb34..551de6e 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -588,7 +588,26 @@ func (g *Generator) generateDDLsForCreateIndex(tableName string, desiredIndex In
 func (g *Generator) generateDDLsForAddForeignKey(tableName string, desiredForeignKey ForeignKey, action string, statement string) ([]string, error) {
 	var ddls []string
 
-	// TODO: Simulate currentTable.foreignKeys too
+	currentTable := findTableByName(g.currentTables, tableName)
+	if currentTable == nil {
+		return nil, fmt.Errorf("%s is performed for inexistent table '%s': '%s'", action, tableName, statement)
+	}
+
+	currentForeignKey := findForeignKeyByName(currentTable.foreignKeys, desiredForeignKey.constraintName)
+	if currentForeignKey == nil {
+		// Foreign key not found, add foreign key.
+		ddls = append(ddls, statement)
+		currentTable.foreignKeys = append(currentTable.foreignKeys, desiredForeignKey)
+	} else if !g.areSameForeignKeys(*currentForeignKey, desiredForeignKey) {
+		// Foreign key found. If it's different, drop and add foreign key.
+		switch g.mode {
+		case GeneratorModeMysql:
+			ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP FOREIGN KEY %s", g.escapeTableName(currentTable.name), g.escapeSQLName(currentForeignKey.constraintName)))
+		default:
+			ddls = append(ddls, fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(currentTable.name), g.escapeSQLName(currentForeignKey.constraintName)))
+		}
+		ddls = append(ddls, statement)
+	}
 
 	// Examine indexes in desiredTable to delete obsoleted indexes later
 	desiredTable := findTableByName(g.desiredTables, tableName)
-- 
2.43.0


From 935f376388a4d371314302e0059a6ec2426a794c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:58 +0000
Subject: [PATCH 39/61] fix: read SQL Server foreign keys of several columns

---
 adapter/mssql/mssql.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index 3e7334b..2b99c45 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -399,7 +399,8 @@ func (d *MssqlDatabase) getForeignDefs(table string) ([]string, error) {
 	f.delete_referential_action_desc,
 	f.is_not_for_replication
 FROM sys.foreign_keys f INNER JOIN sys.foreign_key_columns fc ON f.OBJECT_ID = fc.constraint_object_id
-WHERE f.parent_object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
+WHERE f.parent_object_id = OBJECT_ID('[%s].[%s]')
+ORDER BY f.object_id, fc.constraint_column_id`, schema, table)
 
 	rows, err := d.db.Query(query)
 	if err != nil {
@@ -407,7 +408,11 @@ WHERE f.parent_object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 	}
 	defer rows.Close()
 
-	defs := make([]string, 0)
+	type foreignDef struct {
+		name, foreignTableName, suffix string
+		columns, foreignColumns        []string
+	}
+	foreignDefs := make([]*foreignDef, 0)
 	for rows.Next() {
 		var constraintName, columnName, foreignTableName, foreignColumnName, foreignUpdateRule, foreignDeleteRule string
 		var notForReplication bool
@@ -415,18 +420,29 @@ WHERE f.parent_object_id = OBJECT_ID('[%s].[%s]')`, schema, table)
 		if err != nil {
 			return nil, err
 		}
-		foreignUpdateRule = strings.Replace(foreignUpdateRule, "_", " ", -1)
-		foreignDeleteRule = strings.Replace(foreignDeleteRule, "_", " ", -1)
-		def := fmt.Sprintf("CONSTRAINT [%s] FOREIGN KEY ([%s]) REFERENCES [%s] ([%s]) ON UPDATE %s ON DELETE %s", constraintName, columnName, foreignTableName, foreignColumnName, foreignUpdateRule, foreignDeleteRule)
-		if notForReplication {
-			def += " NOT FOR REPLICATION"
+		// A foreign key has a row for each of its columns
+		if len(foreignDefs) == 0 || foreignDefs[len(foreignDefs)-1].name != constraintName {
+			foreignUpdateRule = strings.Replace(foreignUpdateRule, "_", " ", -1)
+			foreignDeleteRule = strings.Replace(foreignDeleteRule, "_", " ", -1)
+			suffix := fmt.Sprintf("ON UPDATE %s ON DELETE %s", foreignUpdateRule, foreignDeleteRule)
+			if notForReplication {
+				suffix += " NOT FOR REPLICATION"
+			}
+			foreignDefs = append(foreignDefs, &foreignDef{name: constraintName, foreignTableName: foreignTableName, suffix: suffix})
 		}
-		defs = append(defs, def)
+		def := foreignDefs[len(foreignDefs)-1]
+		def.columns = append(def.columns, columnName)
+		def.foreignColumns = append(def.foreignColumns, foreignColumnName)
 	}
 	if err := rows.Err(); err != nil {
 		return nil, err
 	}
 
+	defs := make([]string, 0)
+	for _, def := range foreignDefs {
+		defs = append(defs, fmt.Sprintf("CONSTRAINT [%s] FOREIGN KEY ([%s]) REFERENCES [%s] ([%s]) %s",
+			def.name, strings.Join(def.columns, "], ["), def.foreignTableName, strings.Join(def.foreignColumns, "], ["), def.suffix))
+	}
 	return defs, nil
 }
 
-- 
2.43.0


From c84fe2df4cf4b7703e00421555f3ec1626f0b550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:58 +0000
Subject: [PATCH 40/61] fix: read PostgreSQL foreign keys of several columns
 and quote the columns

---
 adapter/postgres/postgres.go | 38 +++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index ac42379..104b935 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -376,7 +376,12 @@ FROM
 		ON tc.constraint_schema = ccu.constraint_schema AND tc.constraint_name = ccu.constraint_name
 	JOIN information_schema.referential_constraints AS rc
 		ON tc.constraint_schema = rc.constraint_schema AND tc.constraint_name = rc.constraint_name
-WHERE constraint_type = 'FOREIGN KEY' AND tc.table_schema=$1 AND tc.table_name=$2`
+	LEFT JOIN information_schema.key_column_usage AS ukcu
+		ON rc.unique_constraint_schema = ukcu.constraint_schema AND rc.unique_constraint_name = ukcu.constraint_name
+		AND ccu.table_schema = ukcu.table_schema AND ccu.table_name = ukcu.table_name AND ccu.column_name = ukcu.column_name
+WHERE tc.constraint_type = 'FOREIGN KEY' AND tc.table_schema=$1 AND tc.table_name=$2
+	AND (ukcu.ordinal_position IS NULL OR ukcu.ordinal_position = kcu.position_in_unique_constraint)
+ORDER BY tc.constraint_name, kcu.ordinal_position`
 	schema, table := splitTableName(table)
 	rows, err := d.db.Query(query, schema, table)
 	if err != nil {
@@ -384,22 +389,37 @@ WHERE constraint_type = 'FOREIGN KEY' AND tc.table_schema=$1 AND tc.table_name=$
 	}
 	defer rows.Close()
 
-	defs := make([]string, 0)
+	type foreignDef struct {
+		tableSchema, constraintName, tableName, foreignTableSchema, foreignTableName, foreignUpdateRule, foreignDeleteRule string
+		columns, foreignColumns                                                                                            []string
+	}
+	foreignDefs := make([]*foreignDef, 0)
 	for rows.Next() {
-		var tableSchema, constraintName, tableName, columnName, foreignTableSchema, foreignTableName, foreignColumnName, foreignUpdateRule, foreignDeleteRule string
-		err = rows.Scan(&tableSchema, &constraintName, &tableName, &columnName, &foreignTableSchema, &foreignTableName, &foreignColumnName, &foreignUpdateRule, &foreignDeleteRule)
+		var f foreignDef
+		var columnName, foreignColumnName string
+		err = rows.Scan(&f.tableSchema, &f.constraintName, &f.tableName, &columnName, &f.foreignTableSchema, &f.foreignTableName, &foreignColumnName, &f.foreignUpdateRule, &f.foreignDeleteRule)
 		if err != nil {
 			return nil, err
 		}
-		def := fmt.Sprintf(
-			"ALTER TABLE ONLY %s.%s ADD CONSTRAINT %s FOREIGN KEY (%s) REFERENCES %s.%s(%s) ON UPDATE %s ON DELETE %s",
-			tableSchema, tableName, constraintName, columnName, foreignTableSchema, foreignTableName, foreignColumnName, foreignUpdateRule, foreignDeleteRule,
-		)
-		defs = append(defs, def)
+		// A foreign key has a row for each of its columns
+		if len(foreignDefs) == 0 || foreignDefs[len(foreignDefs)-1].constraintName != f.constraintName {
+			foreignDefs = append(foreignDefs, &f)
+		}
+		def := foreignDefs[len(foreignDefs)-1]
+		def.columns = append(def.columns, columnName)
+		def.foreignColumns = append(def.foreignColumns, foreignColumnName)
 	}
 	if err := rows.Err(); err != nil {
 		return nil, err
 	}
+
+	defs := make([]string, 0)
+	for _, f := range foreignDefs {
+		defs = append(defs, fmt.Sprintf(
+			"ALTER TABLE ONLY %s.%s ADD CONSTRAINT %s FOREIGN KEY (\"%s\") REFERENCES %s.%s(\"%s\") ON UPDATE %s ON DELETE %s",
+			f.tableSchema, f.tableName, f.constraintName, strings.Join(f.columns, "\", \""), f.foreignTableSchema, f.foreignTableName, strings.Join(f.foreignColumns, "\", \""), f.foreignUpdateRule, f.foreignDeleteRule,
+		))
+	}
 	return defs, nil
 }
 
-- 
2.43.0


From 7f80b087a3a3a193727338e0870ed5078edd03e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:58 +0000
Subject: [PATCH 41/61] fix: drop a policy before the columns it may use

---
 schema/generator.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 551de6e..395b049 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -182,6 +182,14 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 			// TODO: simulate to remove index from `currentTable.indexes`?
 		}
 
+		// Check policies. They may use the columns dropped below.
+		for _, policy := range currentTable.policies {
+			if containsString(convertPolicyNames(desiredTable.policies), policy.name) {
+				continue
+			}
+			ddls = append(ddls, fmt.Sprintf("DROP POLICY %s ON %s", g.escapeSQLName(policy.name), g.escapeTableName(currentTable.name)))
+		}
+
 		// Check columns.
 		for _, column := range currentTable.columns {
 			if containsString(convertColumnsToColumnNames(desiredTable.columns), column.name) {
@@ -193,14 +201,6 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 			ddls = append(ddls, columnDDLs...)
 			// TODO: simulate to remove column from `currentTable.columns`?
 		}
-
-		// Check policies.
-		for _, policy := range currentTable.policies {
-			if containsString(convertPolicyNames(desiredTable.policies), policy.name) {
-				continue
-			}
-			ddls = append(ddls, fmt.Sprintf("DROP POLICY %s ON %s", g.escapeSQLName(policy.name), g.escapeTableName(currentTable.name)))
-		}
 	}
 
 	// Clean up obsoleted views
-- 
2.43.0


From 27dbeb68d19b2b6f5e77e614a6fb069305194f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:58 +0000
Subject: [PATCH 42/61] fix: drop obsolete PostgreSQL views before what they
 use

---
 schema/generator.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 395b049..3a1bf2a 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -144,6 +144,11 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 		}
 	}
 
+	// PostgreSQL does not drop what a view uses
+	if g.mode == GeneratorModePostgres {
+		ddls = append(ddls, g.generateDDLsForAbsentViews()...)
+	}
+
 	// Clean up obsoleted tables, indexes, columns
 	for _, currentTable := range g.currentTables {
 		desiredTable := findTableByName(g.desiredTables, currentTable.name)
@@ -203,15 +208,23 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 		}
 	}
 
-	// Clean up obsoleted views
+	if g.mode != GeneratorModePostgres {
+		ddls = append(ddls, g.generateDDLsForAbsentViews()...)
+	}
+
+	return ddls, nil
+}
+
+// Clean up obsoleted views
+func (g *Generator) generateDDLsForAbsentViews() []string {
+	ddls := []string{}
 	for _, currentView := range g.currentViews {
 		if containsString(convertViewNames(g.desiredViews), currentView.name) {
 			continue
 		}
 		ddls = append(ddls, fmt.Sprintf("DROP VIEW %s", g.escapeTableName(currentView.name)))
 	}
-
-	return ddls, nil
+	return ddls
 }
 
 func (g *Generator) generateDDLsForAbsentColumn(currentTable *Table, columnName string) []string {
-- 
2.43.0


From b4ea16aaffdd68f53826df45c8b8f9ab30588e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:31 +0000
Subject: [PATCH 43/61] fix: ignore comments when comparing views and triggers

---
 schema/parser.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/schema/parser.go b/schema/parser.go
index f3343e4..e04bf95 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -211,8 +211,25 @@ func parseTable(mode GeneratorMode, stmt *sqlparser.DDL) (Table, error) {
 
 // Format a part of a statement. sqlparser quotes identifiers and strings and converts for MySQL, which the others don't understand.
 func formatNode(mode GeneratorMode, node sqlparser.SQLNode) string {
+	// A comment is not a part of the meaning, unless it's an optimizer hint.
+	formatComments := func(buf *sqlparser.TrackedBuffer, comments sqlparser.Comments) {
+		for _, comment := range comments {
+			if strings.HasPrefix(string(comment), "/*+") {
+				buf.Myprintf("%s ", comment)
+			}
+		}
+	}
+
 	if mode == GeneratorModeMysql {
-		return sqlparser.String(node)
+		buf := sqlparser.NewTrackedBuffer(func(buf *sqlparser.TrackedBuffer, node sqlparser.SQLNode) {
+			if comments, ok := node.(sqlparser.Comments); ok {
+				formatComments(buf, comments)
+			} else {
+				node.Format(buf)
+			}
+		})
+		buf.Myprintf("%v", node)
+		return buf.String()
 	}
 
 	quoteID := func(node sqlparser.SQLNode, name string) string {
@@ -240,6 +257,8 @@ func formatNode(mode GeneratorMode, node sqlparser.SQLNode) string {
 			} else {
 				node.Format(buf)
 			}
+		case sqlparser.Comments:
+			formatComments(buf, node)
 		case sqlparser.ColIdent:
 			buf.WriteString(quoteID(node, node.String()))
 		case sqlparser.TableIdent:
-- 
2.43.0


From 9a538e970e56c1284c6726709d36b880fafe64f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:05 +0000
Subject: [PATCH 44/61] fix: don't split DDLs at semicolons in quotes and
 comments

---
 schema/parser.go | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/schema/parser.go b/schema/parser.go
index e04bf95..58655ef 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -489,16 +489,51 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 	}
 }
 
+// Split DDLs at semicolons, except the ones in quotes and in comments
+func splitDDLs(mode GeneratorMode, str string) []string {
+	ddls := []string{}
+	start := 0
+	for i := 0; i < len(str); i++ {
+		end := ""
+		switch c := str[i]; {
+		case c == ';':
+			ddls = append(ddls, str[start:i])
+			start = i + 1
+		case c == '\'' || c == '"' || c == '`':
+			end = string(c)
+		case c == '[' && mode == GeneratorModeMssql:
+			end = "]"
+		case strings.HasPrefix(str[i:], "/*"):
+			i++
+			end = "*/"
+		case strings.HasPrefix(str[i:], "--") || c == '#' && mode == GeneratorModeMysql:
+			end = "\n"
+		}
+		if end == "" {
+			continue
+		}
+		for i++; i < len(str) && !strings.HasPrefix(str[i:], end); i++ {
+			if str[i] == '\\' && mode == GeneratorModeMysql && (end == "'" || end == "\"") {
+				i++
+			}
+		}
+		i += len(end) - 1
+	}
+	if start < len(str) {
+		ddls = append(ddls, str[start:])
+	}
+	return ddls
+}
+
 // Parse `ddls`, which is expected to `;`-concatenated DDLs
 // and not to include destructive DDL.
 func parseDDLs(mode GeneratorMode, str string) ([]DDL, error) {
 	re := regexp.MustCompilePOSIX("^--.*")
 	str = re.ReplaceAllString(str, "")
 
-	ddls := strings.Split(str, ";")
 	result := []DDL{}
 
-	for _, ddl := range ddls {
+	for _, ddl := range splitDDLs(mode, str) {
 		ddl = strings.TrimSpace(ddl) // TODO: trim trailing comment as well, or ignore it by parser somehow?
 		if len(ddl) == 0 {
 			continue
-- 
2.43.0


From 4a469d21eef64f0ecdd7b54e156e075250222a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:07 +0000
Subject: [PATCH 45/61] fix: read SQL Server views as they were written

---
 adapter/mssql/mssql.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index 2b99c45..84ede33 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -456,7 +456,6 @@ func boolToOnOff(in bool) string {
 
 var (
 	suffixSemicolon = regexp.MustCompile(`;$`)
-	spaces          = regexp.MustCompile(`[ ]+`)
 )
 
 func (d *MssqlDatabase) Views() ([]string, error) {
@@ -485,9 +484,10 @@ INNER JOIN sys.sql_modules
 			return nil, err
 		}
 		definition = strings.TrimSpace(definition)
-		definition = strings.ReplaceAll(definition, "\n", "")
 		definition = suffixSemicolon.ReplaceAllString(definition, "")
-		definition = spaces.ReplaceAllString(definition, " ")
+		if strings.Contains(definition[strings.LastIndex(definition, "\n")+1:], "--") {
+			definition += "\n" // the statement doesn't end in a comment
+		}
 		ddls = append(ddls, definition)
 	}
 	if err := rows.Err(); err != nil {
-- 
2.43.0


From c67bd313202f1384ba671a19695ac9cc8dcda515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:09 +0000
Subject: [PATCH 46/61] fix: keep the quoted text of PostgreSQL views

---
 adapter/postgres/postgres.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index 104b935..af57511 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -60,7 +60,7 @@ func (d *PostgresDatabase) TableNames() ([]string, error) {
 
 var (
 	suffixSemicolon = regexp.MustCompile(`;$`)
-	spaces          = regexp.MustCompile(`[ ]+`)
+	spaces          = regexp.MustCompile(`'[^']*'|"[^"]*"|\s+`)
 )
 
 func (d *PostgresDatabase) Views() ([]string, error) {
@@ -83,9 +83,13 @@ func (d *PostgresDatabase) Views() ([]string, error) {
 			return nil, err
 		}
 		definition = strings.TrimSpace(definition)
-		definition = strings.ReplaceAll(definition, "\n", "")
 		definition = suffixSemicolon.ReplaceAllString(definition, "")
-		definition = spaces.ReplaceAllString(definition, " ")
+		definition = spaces.ReplaceAllStringFunc(definition, func(s string) string {
+			if s[0] == '\'' || s[0] == '"' {
+				return s
+			}
+			return " "
+		})
 		ddls = append(
 			ddls, fmt.Sprintf(
 				"CREATE VIEW %s AS %s", schema+"."+name, definition,
-- 
2.43.0


From cbb5752f696f3d6cd1e278609fd6298e0bdb5cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:52 +0000
Subject: [PATCH 47/61] fix: connect to MySQL databases and users of any name

---
 adapter/mysql/mysql.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/adapter/mysql/mysql.go b/adapter/mysql/mysql.go
index 758eafe..5972032 100644
--- a/adapter/mysql/mysql.go
+++ b/adapter/mysql/mysql.go
@@ -14,13 +14,14 @@ type MysqlDatabase struct {
 }
 
 func NewDatabase(config adapter.Config) (adapter.Database, error) {
-	db, err := sql.Open("mysql", mysqlBuildDSN(config))
+	// A DSN can't express every user and database name
+	connector, err := driver.NewConnector(mysqlBuildConfig(config))
 	if err != nil {
 		return nil, err
 	}
 
 	return &MysqlDatabase{
-		db:     db,
+		db:     sql.OpenDB(connector),
 		config: config,
 	}, nil
 }
@@ -113,7 +114,7 @@ func (d *MysqlDatabase) Close() error {
 	return d.db.Close()
 }
 
-func mysqlBuildDSN(config adapter.Config) string {
+func mysqlBuildConfig(config adapter.Config) *driver.Config {
 	c := driver.NewConfig()
 	c.User = config.User
 	c.Passwd = config.Password
@@ -125,5 +126,5 @@ func mysqlBuildDSN(config adapter.Config) string {
 		c.Net = "unix"
 		c.Addr = config.Socket
 	}
-	return c.FormatDSN()
+	return c
 }
-- 
2.43.0


From 9603f6737395e2ad92ab4696b6168eed250f393d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:54 +0000
Subject: [PATCH 48/61] fix: connect to hosts given by an IPv6 address

---
 adapter/database.go          | 7 +++++++
 adapter/mssql/mssql.go       | 2 +-
 adapter/mysql/mysql.go       | 2 +-
 adapter/postgres/postgres.go | 2 +-
 4 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/adapter/database.go b/adapter/database.go
index e73fb91..58e3e11 100644
--- a/adapter/database.go
+++ b/adapter/database.go
@@ -4,7 +4,9 @@ package adapter
 import (
 	"database/sql"
 	"fmt"
+	"net"
 	"regexp"
+	"strconv"
 	"strings"
 )
 
@@ -17,6 +19,11 @@ type Config struct {
 	Socket   string
 }
 
+// Addr returns the address of the server, where an IPv6 host is in brackets.
+func (c Config) Addr() string {
+	return net.JoinHostPort(strings.Trim(c.Host, "[]"), strconv.Itoa(c.Port))
+}
+
 // Abstraction layer for multiple kinds of databases
 type Database interface {
 	TableNames() ([]string, error)
diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index 84ede33..17b929e 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -539,7 +539,7 @@ func mssqlBuildDSN(config adapter.Config) string {
 	u := &url.URL{
 		Scheme:   "sqlserver",
 		User:     url.UserPassword(config.User, config.Password),
-		Host:     fmt.Sprintf("%s:%d", config.Host, config.Port),
+		Host:     config.Addr(),
 		RawQuery: query.Encode(),
 	}
 	return u.String()
diff --git a/adapter/mysql/mysql.go b/adapter/mysql/mysql.go
index 5972032..c6a14af 100644
--- a/adapter/mysql/mysql.go
+++ b/adapter/mysql/mysql.go
@@ -121,7 +121,7 @@ func mysqlBuildConfig(config adapter.Config) *driver.Config {
 	c.DBName = config.DbName
 	if config.Socket == "" {
 		c.Net = "tcp"
-		c.Addr = fmt.Sprintf("%s:%d", config.Host, config.Port)
+		c.Addr = config.Addr()
 	} else {
 		c.Net = "unix"
 		c.Addr = config.Socket
diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index af57511..157bcae 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -488,7 +488,7 @@ func postgresBuildDSN(config adapter.Config) string {
 	}
 
 	if config.Socket == "" {
-		u.Host = fmt.Sprintf("%s:%d", config.Host, config.Port)
+		u.Host = config.Addr()
 	} else {
 		// A socket directory can't be the host part of a URL
 		query.Set("host", config.Socket)
-- 
2.43.0


From 02e363c9b15b55a8c0a4c800379c0368fac5329d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:56 +0000
Subject: [PATCH 49/61] fix: take option values that start with a double quote
 literally

---
 cmd/mssqldef/mssqldef.go     |  8 ++++----
 cmd/mysqldef/mysqldef.go     | 10 +++++-----
 cmd/psqldef/psqldef.go       |  8 ++++----
 cmd/sqlite3def/sqlite3def.go |  2 +-
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/cmd/mssqldef/mssqldef.go b/cmd/mssqldef/mssqldef.go
index b99b028..763111d 100644
--- a/cmd/mssqldef/mssqldef.go
+++ b/cmd/mssqldef/mssqldef.go
@@ -20,12 +20,12 @@ var version string
 // TODO: Support `sqldef schema.sql -opt val...`
 func parseOptions(args []string) (adapter.Config, *sqldef.Options) {
 	var opts struct {
-		User     string `short:"U" long:"user" description:"MSSQL user name" value-name:"user_name" default:"sa"`
-		Password string `short:"P" long:"password" description:"MSSQL user password, overridden by $MSSQL_PWD" value-name:"password"`
-		Host     string `short:"h" long:"host" description:"Host to connect to the MSSQL server" value-name:"host_name" default:"127.0.0.1"`
+		User     string `short:"U" long:"user" description:"MSSQL user name" value-name:"user_name" default:"sa" unquote:"false"`
+		Password string `short:"P" long:"password" description:"MSSQL user password, overridden by $MSSQL_PWD" value-name:"password" unquote:"false"`
+		Host     string `short:"h" long:"host" description:"Host to connect to the MSSQL server" value-name:"host_name" default:"127.0.0.1" unquote:"false"`
 		Port     uint   `short:"p" long:"port" description:"Port used for the connection" value-name:"port_num" default:"1433"`
 		Prompt   bool   `long:"password-prompt" description:"Force MSSQL user password prompt"`
-		File     string `long:"file" description:"Read schema SQL from the file, rather than stdin" value-name:"sql_file" default:"-"`
+		File     string `long:"file" description:"Read schema SQL from the file, rather than stdin" value-name:"sql_file" default:"-" unquote:"false"`
 		DryRun   bool   `long:"dry-run" description:"Don't run DDLs but just show them"`
 		Export   bool   `long:"export" description:"Just dump the current schema to stdout"`
 		SkipDrop bool   `long:"skip-drop" description:"Skip destructive changes such as DROP"`
diff --git a/cmd/mysqldef/mysqldef.go b/cmd/mysqldef/mysqldef.go
index 700dc9a..8dae3a5 100644
--- a/cmd/mysqldef/mysqldef.go
+++ b/cmd/mysqldef/mysqldef.go
@@ -20,13 +20,13 @@ var version string
 // TODO: Support `sqldef schema.sql -opt val...`
 func parseOptions(args []string) (adapter.Config, *sqldef.Options) {
 	var opts struct {
-		User     string `short:"u" long:"user" description:"MySQL user name" value-name:"user_name" default:"root"`
-		Password string `short:"p" long:"password" description:"MySQL user password, overridden by $MYSQL_PWD" value-name:"password"`
-		Host     string `short:"h" long:"host" description:"Host to connect to the MySQL server" value-name:"host_name" default:"127.0.0.1"`
+		User     string `short:"u" long:"user" description:"MySQL user name" value-name:"user_name" default:"root" unquote:"false"`
+		Password string `short:"p" long:"password" description:"MySQL user password, overridden by $MYSQL_PWD" value-name:"password" unquote:"false"`
+		Host     string `short:"h" long:"host" description:"Host to connect to the MySQL server" value-name:"host_name" default:"127.0.0.1" unquote:"false"`
 		Port     uint   `short:"P" long:"port" description:"Port used for the connection" value-name:"port_num" default:"3306"`
-		Socket   string `short:"S" long:"socket" description:"The socket file to use for connection" value-name:"socket"`
+		Socket   string `short:"S" long:"socket" description:"The socket file to use for connection" value-name:"socket" unquote:"false"`
 		Prompt   bool   `long:"password-prompt" description:"Force MySQL user password prompt"`
-		File     string `long:"file" description:"Read schema SQL from the file, rather than stdin" value-name:"sql_file" default:"-"`
+		File     string `long:"file" description:"Read schema SQL from the file, rather than stdin" value-name:"sql_file" default:"-" unquote:"false"`
 		DryRun   bool   `long:"dry-run" description:"Don't run DDLs but just show them"`
 		Export   bool   `long:"export" description:"Just dump the current schema to stdout"`
 		SkipDrop bool   `long:"skip-drop" description:"Skip destructive changes such as DROP"`
diff --git a/cmd/psqldef/psqldef.go b/cmd/psqldef/psqldef.go
index 220153e..a44ffd5 100644
--- a/cmd/psqldef/psqldef.go
+++ b/cmd/psqldef/psqldef.go
@@ -20,12 +20,12 @@ var version string
 // TODO: Support `sqldef schema.sql -opt val...`
 func parseOptions(args []string) (adapter.Config, *sqldef.Options) {
 	var opts struct {
-		User     string `short:"U" long:"user" description:"PostgreSQL user name" value-name:"username" default:"postgres"`
-		Password string `short:"W" long:"password" description:"PostgreSQL user password, overridden by $PGPASSWORD" value-name:"password"`
-		Host     string `short:"h" long:"host" description:"Host or socket directory to connect to the PostgreSQL server" value-name:"hostname" default:"127.0.0.1"`
+		User     string `short:"U" long:"user" description:"PostgreSQL user name" value-name:"username" default:"postgres" unquote:"false"`
+		Password string `short:"W" long:"password" description:"PostgreSQL user password, overridden by $PGPASSWORD" value-name:"password" unquote:"false"`
+		Host     string `short:"h" long:"host" description:"Host or socket directory to connect to the PostgreSQL server" value-name:"hostname" default:"127.0.0.1" unquote:"false"`
 		Port     uint   `short:"p" long:"port" description:"Port used for the connection" value-name:"port" default:"5432"`
 		Prompt   bool   `long:"password-prompt" description:"Force PostgreSQL user password prompt"`
-		File     string `short:"f" long:"file" description:"Read schema SQL from the file, rather than stdin" value-name:"filename" default:"-"`
+		File     string `short:"f" long:"file" description:"Read schema SQL from the file, rather than stdin" value-name:"filename" default:"-" unquote:"false"`
 		DryRun   bool   `long:"dry-run" description:"Don't run DDLs but just show them"`
 		Export   bool   `long:"export" description:"Just dump the current schema to stdout"`
 		SkipDrop bool   `long:"skip-drop" description:"Skip destructive changes such as DROP"`
diff --git a/cmd/sqlite3def/sqlite3def.go b/cmd/sqlite3def/sqlite3def.go
index ab253fc..6c238c0 100644
--- a/cmd/sqlite3def/sqlite3def.go
+++ b/cmd/sqlite3def/sqlite3def.go
@@ -18,7 +18,7 @@ var version string
 // TODO: Support `sqldef schema.sql -opt val...`
 func parseOptions(args []string) (adapter.Config, *sqldef.Options) {
 	var opts struct {
-		File     string `short:"f" long:"file" description:"Read schema SQL from the file, rather than stdin" value-name:"filename" default:"-"`
+		File     string `short:"f" long:"file" description:"Read schema SQL from the file, rather than stdin" value-name:"filename" default:"-" unquote:"false"`
 		DryRun   bool   `long:"dry-run" description:"Don't run DDLs but just show them"`
 		Export   bool   `long:"export" description:"Just dump the current schema to stdout"`
 		SkipDrop bool   `long:"skip-drop" description:"Skip destructive changes such as DROP"`
-- 
2.43.0


From 8df08dc0e971c8651a6aa54a554263442a0be701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:16 +0000
Subject: [PATCH 50/61] fix: tell apart views of the same name in different
 schemas

---
 schema/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/parser.go b/schema/parser.go
index 58655ef..bcfe46a 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -461,7 +461,7 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 		} else if stmt.Action == "create view" {
 			return &View{
 				statement:  ddl,
-				name:       stmt.View.Name.Name.String(),
+				name:       normalizedTableName(mode, stmt.View.Name),
 				definition: formatNode(mode, stmt.View.Definition),
 			}, nil
 		} else if stmt.Action == "create trigger" {
-- 
2.43.0


From f827b4cbc9841f7d16031c169ba5aa7da91f9328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:18 +0000
Subject: [PATCH 51/61] fix: name the check constraint of a column without the
 schema of its table

---
 schema/generator.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 3a1bf2a..644102b 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"log"
 	"reflect"
+	"regexp"
 	"sort"
 	"strings"
 )
@@ -31,6 +32,9 @@ var (
 		"real":             "double",
 		"double precision": "double",
 	}
+
+	// PostgreSQL keeps such a name as it is without quotes
+	unquotedName = regexp.MustCompile(`^[a-z_][a-z0-9_]*$`)
 )
 
 // This struct holds simulated schema states during GenerateIdempotentDDLs().
@@ -368,7 +372,12 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 				}
 
 				if !areSameCheckDefinition(currentColumn.check, desiredColumn.check) || currentColumn.checkNoInherit != desiredColumn.checkNoInherit {
-					constraintName := fmt.Sprintf("%s_%s_check", strings.Replace(desired.table.name, "public.", "", 1), desiredColumn.name)
+					// the constraint is in the schema of its table
+					schemaTable := strings.SplitN(desired.table.name, ".", 2)
+					constraintName := fmt.Sprintf("%s_%s_check", schemaTable[len(schemaTable)-1], desiredColumn.name)
+					if !unquotedName.MatchString(constraintName) {
+						constraintName = g.escapeSQLName(constraintName)
+					}
 					if currentColumn.check != nil {
 						ddl := fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), constraintName)
 						ddls = append(ddls, ddl)
@@ -385,7 +394,9 @@ func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired Creat
 				// TODO: support adding a column's `references`
 			case GeneratorModeMssql:
 				if !areSameCheckDefinition(currentColumn.check, desiredColumn.check) || currentColumn.checkNoInherit != desiredColumn.checkNoInherit {
-					constraintName := fmt.Sprintf("%s_%s_check", strings.Replace(desired.table.name, "dbo.", "", 1), desiredColumn.name)
+					// the constraint is in the schema of its table
+					schemaTable := strings.SplitN(desired.table.name, ".", 2)
+					constraintName := fmt.Sprintf("%s_%s_check", schemaTable[len(schemaTable)-1], desiredColumn.name)
 					if currentColumn.check != nil {
 						currentConstraintName := currentColumn.check.constraintName
 						ddl := fmt.Sprintf("ALTER TABLE %s DROP CONSTRAINT %s", g.escapeTableName(desired.table.name), currentConstraintName)
-- 
2.43.0


From b53968e674ec6b1c558e8b1df7e078292a45fea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:03 +0000
Subject: [PATCH 52/61] fix: compare numeric default values as numbers

---
 schema/generator.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 644102b..8c03e46 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -4,6 +4,7 @@ package schema
 import (
 	"fmt"
 	"log"
+	"math/big"
 	"reflect"
 	"regexp"
 	"sort"
@@ -1436,10 +1437,13 @@ func areSameValue(current, desired *Value) bool {
 		// MySQL stores TRUE and FALSE as 1 and 0
 		return currentRaw == map[string]string{"true": "1", "false": "0"}[desiredRaw]
 	}
-	if desired.valueType == ValueTypeFloat && len(currentRaw) > len(desiredRaw) {
-		// Round "0.00" to "0.0" for comparison with desired.
-		// Ideally we should do this seeing precision in a data type.
-		currentRaw = currentRaw[0:len(desiredRaw)]
+	if desired.valueType == ValueTypeFloat || desired.valueType == ValueTypeInt {
+		// Databases show "0.0" as "0.00" or "0".
+		currentNumber, ok := new(big.Rat).SetString(currentRaw)
+		desiredNumber, ok2 := new(big.Rat).SetString(desiredRaw)
+		if ok && ok2 {
+			return currentNumber.Cmp(desiredNumber) == 0
+		}
 	}
 	return currentRaw == desiredRaw
 }
-- 
2.43.0


From adf6fb652a77edcfe4bf043bf042e1123acb1622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:06 +0000
Subject: [PATCH 53/61] fix: NO ACTION is the same as the default of MySQL

---
 schema/generator.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 8c03e46..70f8742 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -1621,8 +1621,8 @@ func areSamePolicies(policyA, policyB Policy) bool {
 func (g *Generator) normalizeOnUpdate(onUpdate string) string {
 	if (g.mode == GeneratorModePostgres || g.mode == GeneratorModeMssql) && onUpdate == "" {
 		return "NO ACTION"
-	} else if g.mode == GeneratorModeMysql && strings.ToUpper(onUpdate) == "RESTRICT" {
-		return "" // the default of MySQL, which doesn't show it
+	} else if g.mode == GeneratorModeMysql && (strings.ToUpper(onUpdate) == "RESTRICT" || strings.ToUpper(onUpdate) == "NO ACTION") {
+		return "" // the same as the default of MySQL, which doesn't show RESTRICT
 	} else {
 		return onUpdate
 	}
@@ -1631,8 +1631,8 @@ func (g *Generator) normalizeOnUpdate(onUpdate string) string {
 func (g *Generator) normalizeOnDelete(onDelete string) string {
 	if (g.mode == GeneratorModePostgres || g.mode == GeneratorModeMssql) && onDelete == "" {
 		return "NO ACTION"
-	} else if g.mode == GeneratorModeMysql && strings.ToUpper(onDelete) == "RESTRICT" {
-		return "" // the default of MySQL, which doesn't show it
+	} else if g.mode == GeneratorModeMysql && (strings.ToUpper(onDelete) == "RESTRICT" || strings.ToUpper(onDelete) == "NO ACTION") {
+		return "" // the same as the default of MySQL, which doesn't show RESTRICT
 	} else {
 		return onDelete
 	}
-- 
2.43.0


From b0ca97fc09ac54c2cf10d98c6947abcb9d5b1917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:09 +0000
Subject: [PATCH 54/61] fix: quote the names of PostgreSQL that need it in
 exported schemas

---
 adapter/postgres/postgres.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index 157bcae..300ffde 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -92,7 +92,7 @@ func (d *PostgresDatabase) Views() ([]string, error) {
 		})
 		ddls = append(
 			ddls, fmt.Sprintf(
-				"CREATE VIEW %s AS %s", schema+"."+name, definition,
+				"CREATE VIEW %s AS %s", quoteTableName(schema+"."+name), definition,
 			),
 		)
 	}
@@ -132,7 +132,7 @@ func (d *PostgresDatabase) DumpTableDDL(table string) (string, error) {
 
 func buildDumpTableDDL(table string, columns []column, pkeyCols, indexDefs, foreginDefs, policyDefs []string) string {
 	var queryBuilder strings.Builder
-	fmt.Fprintf(&queryBuilder, "CREATE TABLE %s (", table)
+	fmt.Fprintf(&queryBuilder, "CREATE TABLE %s (", quoteTableName(table))
 	for i, col := range columns {
 		if i > 0 {
 			fmt.Fprint(&queryBuilder, ",")
@@ -421,7 +421,7 @@ ORDER BY tc.constraint_name, kcu.ordinal_position`
 	for _, f := range foreignDefs {
 		defs = append(defs, fmt.Sprintf(
 			"ALTER TABLE ONLY %s.%s ADD CONSTRAINT %s FOREIGN KEY (\"%s\") REFERENCES %s.%s(\"%s\") ON UPDATE %s ON DELETE %s",
-			f.tableSchema, f.tableName, f.constraintName, strings.Join(f.columns, "\", \""), f.foreignTableSchema, f.foreignTableName, strings.Join(f.foreignColumns, "\", \""), f.foreignUpdateRule, f.foreignDeleteRule,
+			quoteName(f.tableSchema), quoteName(f.tableName), quoteName(f.constraintName), strings.Join(f.columns, "\", \""), quoteName(f.foreignTableSchema), quoteName(f.foreignTableName), strings.Join(f.foreignColumns, "\", \""), f.foreignUpdateRule, f.foreignDeleteRule,
 		))
 	}
 	return defs, nil
@@ -455,7 +455,7 @@ func (d *PostgresDatabase) getPolicyDefs(table string) ([]string, error) {
 		roles = policyRolesSuffixRegex.ReplaceAllString(roles, "")
 		def := fmt.Sprintf(
 			"CREATE POLICY %s ON %s AS %s FOR %s TO %s",
-			policyName, schema+"."+table, permissive, cmd, roles,
+			quoteName(policyName), quoteTableName(schema+"."+table), permissive, cmd, roles,
 		)
 		if using.Valid {
 			def += fmt.Sprintf(" USING %s", using.String)
@@ -507,6 +507,21 @@ func postgresBuildDSN(config adapter.Config) string {
 	return u.String()
 }
 
+var plainName = regexp.MustCompile(`^[a-z_][a-z0-9_$]*$`)
+
+// quoteName quotes a name that would be another one, or none at all, without quotes.
+func quoteName(name string) string {
+	if plainName.MatchString(name) {
+		return name
+	}
+	return `"` + strings.ReplaceAll(name, `"`, `""`) + `"`
+}
+
+func quoteTableName(table string) string {
+	schema, name := splitTableName(table)
+	return quoteName(schema) + "." + quoteName(name)
+}
+
 func splitTableName(table string) (string, string) {
 	schema := "public"
 	schemaTable := strings.SplitN(table, ".", 2)
-- 
2.43.0


From 8326bf71a5c9e9c98b1db69f90c40287ffa81aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:12 +0000
Subject: [PATCH 55/61] fix: quote the names of MySQL views and triggers

---
 adapter/mysql/mysql.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/adapter/mysql/mysql.go b/adapter/mysql/mysql.go
index c6a14af..7606201 100644
--- a/adapter/mysql/mysql.go
+++ b/adapter/mysql/mysql.go
@@ -3,6 +3,7 @@ package mysql
 import (
 	"database/sql"
 	"fmt"
+	"strings"
 
 	driver "github.com/go-sql-driver/mysql"
 	"github.com/k0kubun/sqldef/adapter"
@@ -77,7 +78,7 @@ func (d *MysqlDatabase) Views() ([]string, error) {
 		if err = d.db.QueryRow(query).Scan(&definition); err != nil {
 			return nil, err
 		}
-		ddls = append(ddls, fmt.Sprintf("CREATE VIEW %s AS %s", viewName, definition))
+		ddls = append(ddls, fmt.Sprintf("CREATE VIEW %s AS %s", quoteName(viewName), definition))
 	}
 	if err := rows.Err(); err != nil {
 		return nil, err
@@ -98,7 +99,7 @@ func (d *MysqlDatabase) Triggers() ([]string, error) {
 		if err = rows.Scan(&trigger, &event, &table, &statement, &timing, &created, &sqlMode, &definer, &characterSetClient, &collationConnection, &databaseCollation); err != nil {
 			return nil, err
 		}
-		ddls = append(ddls, fmt.Sprintf("CREATE TRIGGER %s %s %s ON %s FOR EACH ROW %s;", trigger, timing, event, table, statement))
+		ddls = append(ddls, fmt.Sprintf("CREATE TRIGGER %s %s %s ON %s FOR EACH ROW %s;", quoteName(trigger), timing, event, quoteName(table), statement))
 	}
 	if err := rows.Err(); err != nil {
 		return nil, err
@@ -106,6 +107,10 @@ func (d *MysqlDatabase) Triggers() ([]string, error) {
 	return ddls, nil
 }
 
+func quoteName(name string) string {
+	return "`" + strings.ReplaceAll(name, "`", "``") + "`"
+}
+
 func (d *MysqlDatabase) DB() *sql.DB {
 	return d.db
 }
-- 
2.43.0


From bc0ddd08335cdc61938bd925cbf17cdefa62b7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:54 +0000
Subject: [PATCH 56/61] fix: report a failed read of the schema instead of
 panicking

PostgreSQL and SQL Server printed the error of a query to the standard output
and went on with no rows, which panicked.
---
 adapter/mssql/mssql.go       | 2 +-
 adapter/postgres/postgres.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/adapter/mssql/mssql.go b/adapter/mssql/mssql.go
index 17b929e..a4c1661 100644
--- a/adapter/mssql/mssql.go
+++ b/adapter/mssql/mssql.go
@@ -214,7 +214,7 @@ ORDER BY c.column_id`, schema, table)
 
 	rows, err := d.db.Query(query)
 	if err != nil {
-		fmt.Println(err)
+		return nil, err
 	}
 	defer rows.Close()
 
diff --git a/adapter/postgres/postgres.go b/adapter/postgres/postgres.go
index 300ffde..f708754 100644
--- a/adapter/postgres/postgres.go
+++ b/adapter/postgres/postgres.go
@@ -256,7 +256,7 @@ WHERE c.relkind = 'r'::char AND n.nspname = $1 AND c.relname = $2 AND f.attnum >
 	schema, table := splitTableName(table)
 	rows, err := d.db.Query(query, schema, table)
 	if err != nil {
-		fmt.Println(err)
+		return nil, err
 	}
 	defer rows.Close()
 
@@ -307,7 +307,7 @@ func (d *PostgresDatabase) getIndexDefs(table string) ([]string, error) {
 	schema, table := splitTableName(table)
 	rows, err := d.db.Query(query, schema, table)
 	if err != nil {
-		fmt.Println(err)
+		return nil, err
 	}
 	defer rows.Close()
 
-- 
2.43.0


From 4981eb38c3f0533fdd158337e2f71c49fe0c45e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:00 +0000
Subject: [PATCH 57/61] fix: see SQLite tables whose names start with sqlite
 without an underscore

The underscore of LIKE 'sqlite_%' matches any character.
---
 adapter/sqlite3/sqlite3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adapter/sqlite3/sqlite3.go b/adapter/sqlite3/sqlite3.go
index 12c6d7c..a2c6db1 100644
--- a/adapter/sqlite3/sqlite3.go
+++ b/adapter/sqlite3/sqlite3.go
@@ -26,7 +26,7 @@ func NewDatabase(config adapter.Config) (adapter.Database, error) {
 
 func (d *Sqlite3Database) TableNames() ([]string, error) {
 	rows, err := d.db.Query(
-		`select tbl_name from sqlite_master where type = 'table' and tbl_name not like 'sqlite_%'`,
+		`select tbl_name from sqlite_master where type = 'table' and tbl_name not like 'sqlite\_%' escape '\'`,
 	)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From ce8fabd75bcafeb1c32f16fd2dcf4e3584ba9ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:04 +0000
Subject: [PATCH 58/61] fix: refuse a table, trigger, or inline index or
 foreign key that is declared twice

Views, policies and indexes that are created separately are refused already.
---
 schema/generator.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/schema/generator.go b/schema/generator.go
index 70f8742..6243889 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -92,6 +92,9 @@ func (g *Generator) generateDDLs(desiredDDLs []DDL) ([]string, error) {
 	for _, ddl := range desiredDDLs {
 		switch desired := ddl.(type) {
 		case *CreateTable:
+			if err := g.checkDoublyCreated(*desired); err != nil {
+				return ddls, err
+			}
 			if currentTable := findTableByName(g.currentTables, desired.table.name); currentTable != nil {
 				// Table already exists, guess required DDLs.
 				tableDDLs, err := g.generateDDLsForCreateTable(*currentTable, *desired)
@@ -253,6 +256,25 @@ func (g *Generator) generateDDLsForAbsentColumn(currentTable *Table, columnName
 	return append(ddls, ddl)
 }
 
+func (g *Generator) checkDoublyCreated(desired CreateTable) error {
+	if findTableByName(g.desiredTables, desired.table.name) != nil {
+		return fmt.Errorf("table '%s' is doubly created: '%s'", desired.table.name, desired.statement)
+	}
+	indexNames := convertIndexesToIndexNames(desired.table.indexes)
+	for i, indexName := range indexNames {
+		if indexName != "" && containsString(indexNames[:i], indexName) {
+			return fmt.Errorf("index '%s' is doubly created against table '%s': '%s'", indexName, desired.table.name, desired.statement)
+		}
+	}
+	constraintNames := convertForeignKeysToConstraintNames(desired.table.foreignKeys)
+	for i, constraintName := range constraintNames {
+		if constraintName != "" && containsString(constraintNames[:i], constraintName) {
+			return fmt.Errorf("foreign key '%s' is doubly created against table '%s': '%s'", constraintName, desired.table.name, desired.statement)
+		}
+	}
+	return nil
+}
+
 // In the caller, `mergeTable` manages `g.currentTables`.
 func (g *Generator) generateDDLsForCreateTable(currentTable Table, desired CreateTable) ([]string, error) {
 	ddls := []string{}
@@ -739,6 +761,9 @@ func (g *Generator) generateDDLsForCreateTrigger(triggerName string, desiredTrig
 		}
 	}
 
+	if findTriggerByName(g.desiredTriggers, triggerName) != nil {
+		return nil, fmt.Errorf("trigger '%s' is doubly created: '%s'", triggerName, desiredTrigger.statement)
+	}
 	g.desiredTriggers = append(g.desiredTriggers, desiredTrigger)
 
 	return ddls, nil
-- 
2.43.0


From 5c3addb43a3ca073a6329d8d58f11525e3c789da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:02 +0000
Subject: [PATCH 59/61] fix: don't add FROM dual to a view without FROM

Only MySQL has dual. CREATE OR REPLACE VIEW and CREATE VIEW failed on PostgreSQL
and SQL Server, and broke the view on SQLite.
---
 schema/parser.go    | 8 ++++++++
 sqlparser/ast.go    | 6 +++++-
 sqlparser/parser.go | 2 +-
 sqlparser/parser.y  | 2 +-
 4 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/schema/parser.go b/schema/parser.go
index bcfe46a..e150213 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -259,6 +259,14 @@ func formatNode(mode GeneratorMode, node sqlparser.SQLNode) string {
 			}
 		case sqlparser.Comments:
 			formatComments(buf, node)
+		case *sqlparser.Select:
+			if len(node.From) == 0 { // only MySQL has dual
+				buf.Myprintf("select %v%s%s%s%v%v%v%v%v%v%s",
+					node.Comments, node.Cache, node.Distinct, node.Hints, node.SelectExprs,
+					node.Where, node.GroupBy, node.Having, node.OrderBy, node.Limit, node.Lock)
+			} else {
+				node.Format(buf)
+			}
 		case sqlparser.ColIdent:
 			buf.WriteString(quoteID(node, node.String()))
 		case sqlparser.TableIdent:
diff --git a/sqlparser/ast.go b/sqlparser/ast.go
index a87f43f..213c021 100644
--- a/sqlparser/ast.go
+++ b/sqlparser/ast.go
@@ -295,9 +295,13 @@ func (node *Select) SetLimit(limit *Limit) {
 
 // Format formats the node.
 func (node *Select) Format(buf *TrackedBuffer) {
+	from := node.From
+	if len(from) == 0 {
+		from = TableExprs{&AliasedTableExpr{Expr: TableName{Name: NewTableIdent("dual")}}}
+	}
 	buf.Myprintf("select %v%s%s%s%v from %v%v%v%v%v%v%s",
 		node.Comments, node.Cache, node.Distinct, node.Hints, node.SelectExprs,
-		node.From, node.Where,
+		from, node.Where,
 		node.GroupBy, node.Having, node.OrderBy,
 		node.Limit, node.Lock)
 }
diff --git a/sqlparser/parser.go b/sqlparser/parser.go
index b4e69a2..4fd8242 100644
--- a/sqlparser/parser.go
+++ b/sqlparser/parser.go
@@ -6089,7 +6089,7 @@ yydefault:
 		yyDollar = yyS[yypt-0 : yypt+1]
 //line sqlparser/parser.y:2481
 		{
-			yyVAL.tableExprs = TableExprs{&AliasedTableExpr{Expr: TableName{Name: NewTableIdent("dual")}}}
+			yyVAL.tableExprs = nil
 		}
 	case 458:
 		yyDollar = yyS[yypt-2 : yypt+1]
diff --git a/sqlparser/parser.y b/sqlparser/parser.y
index d1cc1eb..d35c1ff 100644
--- a/sqlparser/parser.y
+++ b/sqlparser/parser.y
@@ -2479,7 +2479,7 @@ col_alias:
 
 from_opt:
   {
-    $$ = TableExprs{&AliasedTableExpr{Expr:TableName{Name: NewTableIdent("dual")}}}
+    $$ = nil
   }
 | FROM table_references
   {
-- 
2.43.0


From 15887a1258aef2335666bff4b2180af4ca54e22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:41 +0000
Subject: [PATCH 60/61] fix: create a trigger on the table of the declared
 schema

The schema of the table was ignored, so that SQL Server got the dbo table.
---
 schema/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/parser.go b/schema/parser.go
index e150213..bdeed24 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -481,7 +481,7 @@ func parseDDL(mode GeneratorMode, ddl string) (DDL, error) {
 			return &Trigger{
 				statement: ddl,
 				name:      stmt.Trigger.Name.String(),
-				tableName: stmt.Trigger.TableName.Name.String(),
+				tableName: normalizedTableName(mode, stmt.Trigger.TableName),
 				time:      stmt.Trigger.Time,
 				event:     stmt.Trigger.Event,
 				body:      body,
-- 
2.43.0


From 19dd9287dab33f19ee7bc21a5f3656d0062d774c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:45 +0000
Subject: [PATCH 61/61] fix: drop and create a SQL Server trigger that moves to
 another table

CREATE OR ALTER TRIGGER can't change the table of a trigger.
---
 schema/generator.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/schema/generator.go b/schema/generator.go
index 6243889..c2f5dd5 100644
--- a/schema/generator.go
+++ b/schema/generator.go
@@ -752,10 +752,14 @@ func (g *Generator) generateDDLsForCreateTrigger(triggerName string, desiredTrig
 		// Trigger found. If it's different, create or replace trigger.
 		if !areSameTriggerDefinition(currentTrigger, desiredTrigger) {
 			createPrefix := "CREATE "
-			if g.mode == GeneratorModeMssql {
+			if g.mode == GeneratorModeMssql && currentTrigger.tableName == desiredTrigger.tableName {
 				createPrefix += "OR ALTER "
 			} else {
-				ddls = append(ddls, fmt.Sprintf("DROP TRIGGER %s", g.escapeSQLName(triggerName)))
+				dropName := g.escapeSQLName(triggerName)
+				if g.mode == GeneratorModeMssql { // the trigger is in the schema of its table
+					dropName = g.escapeSQLName(strings.SplitN(currentTrigger.tableName, ".", 2)[0]) + "." + dropName
+				}
+				ddls = append(ddls, fmt.Sprintf("DROP TRIGGER %s", dropName))
 			}
 			ddls = append(ddls, createPrefix+triggerDefinition)
 		}
-- 
2.43.0

