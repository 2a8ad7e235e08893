import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or ["statements received by the database server","tool stdout / exit status"],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
AD=["adapter/mysql/mysql.go","adapter/postgres/postgres.go","adapter/mssql/mssql.go","adapter/sqlite3/sqlite3.go"]
GEN="schema/generator.go"; PAR="schema/parser.go"; SP="sqlparser/parser.y"
p("C01","Apply converges: tables and columns match the desired schema",
 "After a successful apply, the database has exactly the tables and columns the desired file declares: the same tables, and in each the same columns with the declared type, length, nullability, default, auto-increment/identity, ON UPDATE and explicit charset/collation, as if the file had been executed on an empty database. Tables and columns the file no longer declares are gone. On MySQL newly added columns also land in their declared position.",
 ["inputs","histories"],"for every database dialect, every current schema reachable by earlier applies and every valid desired schema that differs from it in ways the README documents as supported for that database",
 "Tests check a few dozen hand-written before/after pairs and only sqlite3def's run here; the pairs of (current, desired) column definitions across four dialects are combinatorial.",
 [GEN,PAR,SP]+AD,[("diff of CREATE TABLE columns","schema/generator.go generateDDLsForCreateTable"),("column rendering","schema/generator.go generateColumnDefinition"),("obsolete table/column cleanup","schema/generator.go generateDDLs")],
 [("currentTables","simulated current schema","schema/generator.go Generator"),("desiredTables","desired schema seen so far","schema/generator.go Generator")])
p("C02","Apply converges: keys, indexes and foreign keys",
 "After a successful apply, each table has exactly the primary key, unique keys, secondary indexes (columns, order, direction, uniqueness, predicate, included columns, declared options) and foreign keys (columns, referenced table and columns, ON DELETE / ON UPDATE actions) that the desired file declares, whichever way they were spelled. Keys, indexes and foreign keys the file no longer declares are gone.",
 ["inputs","histories"],"for every dialect and every pair of current and desired key/index/foreign-key sets whose kinds of change the README documents as supported for that database, including simultaneous column changes",
 "Existing tests sample single add/drop/modify cases, most need a live server and do not run; interactions (PK moves with auto increment, indexes on dropped columns, FK-backed indexes) are unbounded.",
 [GEN,PAR,SP]+AD,[("primary key / index / FK diff","schema/generator.go generateDDLsForCreateTable, generateDDLsForCreateIndex"),("index and FK rendering","schema/generator.go generateAddIndex, generateForeignKeyDefinition"),("cleanup","schema/generator.go generateDDLsForAbsentIndex, generateDDLsForAbsentForeignKey")])
p("C03","Apply converges: views, triggers, policies, checks, without altering text",
 "After a successful apply, the views, row-security policies and check constraints in the database are exactly those the desired file declares, every declared trigger exists as declared, and each has the meaning written in the file: the predicate, select list or body that reaches the database is the same expression, with the same operators, grouping, literals and identifiers.",
 ["inputs","histories"],"for every dialect for which the README documents the object as supported and every create / change / remove of it, over expressions built from the supported grammar",
 "Round-tripping an expression through the parser and printer can only be sampled by tests; the dialect-specific replace paths need servers the tests do not have.",
 [GEN,PAR,SP,"sqlparser/ast.go"]+AD,[("view/trigger/policy diff","schema/generator.go generateDDLsForCreateView, generateDDLsForCreateTrigger, generateDDLsForCreatePolicy, areSamePolicies"),("expression printing","sqlparser/ast.go Format"),("check diff","schema/generator.go areSameCheckDefinition")])
p("C04","Idempotence: applying the same file again changes nothing",
 "Once a desired file has been applied successfully, running the tool again with the same file plans nothing, reports that nothing is modified, exits 0 and sends no statement that writes to the database; this stays true however many times it is repeated and whatever changes led to that state.",
 ["inputs","histories"],"for every dialect, every valid desired file and every history of earlier applies",
 "Tests re-apply a few dozen fixed schemas, mostly against servers not available here; the server's own rewriting of definitions makes this a property of every definition.",
 [GEN,PAR]+AD,[("equality of definitions","schema/generator.go haveSameColumnDefinition, areSameIndexes, areSameDefaultValue, areSameForeignKeys, areSamePolicies"),("server normalisation","adapter/* DumpTableDDL, Views, Triggers")])
p("C05","Equivalent spellings of a schema are the same schema",
 "Rewriting a desired file into an equivalent spelling - keyword case, whitespace, comments, identifier quoting, type aliases, inline versus table-level versus separate statements for the same key, omitted defaults written out - does not change what it means: against a database already in that state it plans nothing, and from any other state it leads to the same final schema.",
 ["inputs"],"for every valid desired file, every dialect, and every combination of the equivalent spellings the supported grammar accepts",
 "The number of spelling combinations is exponential; tests pin a handful.",
 [GEN,PAR,SP,"sqlparser/token.go"],[("type aliases","schema/generator.go normalizeDataType"),("name normalisation","schema/parser.go normalizedTableName"),("tokenizer","sqlparser/token.go Scan")])
p("C06","Data in surviving tables and columns is preserved; changes are minimal",
 "A table or column that exists before and is still declared is never dropped or re-created to reach the desired schema (changing a SQL Server column's identity is the one exception), and an index, key, foreign key, view, trigger, check or policy that already matches its declaration is left untouched.",
 ["inputs","histories"],"for every dialect and every pair of current and desired schemas",
 "Tests compare the exact plan of a few cases; data loss in an untested combination would not show.",
 [GEN],[("drop decisions","schema/generator.go generateDDLs (cleanup), generateDDLsForAbsentColumn, generateDropIndex")])
p("C07","The plan is executable, statement by statement, in the order given",
 "For a valid current database and a valid desired file, every statement the tool sends is well-formed SQL of that dialect (names quoted, literals escaped) and is accepted by the database in the state left by the statements before it, so the apply runs to completion.",
 ["inputs","histories"],"for every dialect and every valid pair of current and desired schemas, including dependent changes (keys and auto increment, columns and the keys, indexes, foreign keys or constraints over them)",
 "Ordering hazards depend on the combination of changes; tests try single changes and most need servers.",
 [GEN,PAR],[("statement ordering","schema/generator.go generateDDLs, generateDDLsForCreateTable"),("name and literal rendering","schema/generator.go escapeTableName, escapeSQLName, generateDefaultDefinition")])
p("C08","With --skip-drop nothing is ever dropped",
 "When the skip-drop option is given, no statement that drops a table, column, index, key, constraint, foreign key, view, trigger or policy is sent to the database, whatever the schemas are; every skipped statement is reported as skipped, and all the other planned statements are still executed in order. Dry run shows the same skips.",
 ["inputs","histories"],"for every dialect and every pair of current and desired schemas whose plan contains drops, mixed with other changes",
 "Tests run one single-drop case per dialect.",
 ["sqldef.go","adapter/database.go",GEN],[("skip filter","adapter/database.go RunDDLs; sqldef.go showDDLs")])
p("C09","Dry run writes nothing and shows exactly what apply will do",
 "A dry run only reads: it sends no statement that writes, opens no transaction that commits changes, and leaves the database as it was. The statements it prints are exactly those, in the same order and with the same text, that an apply of the same file on the same database executes, and it exits 0.",
 ["inputs","histories"],"for every dialect and every pair of current and desired schemas, with and without skip-drop",
 "Tests compare dry-run and apply output for one schema per dialect.",
 ["sqldef.go","adapter/database.go"],[("dry run branch","sqldef.go Run, showDDLs")])
p("C10","Export is read-only, complete and re-importable",
 "Export only reads, prints every table (with its columns, keys, indexes, foreign keys, checks and policies), view and trigger of the target database, and exits 0. Using the printed text as the desired file on the same database plans nothing, and applying it to an empty database reproduces the same schema.",
 ["inputs","histories"],"for every database reachable through applies in every dialect, including empty databases",
 "Tests check one table per dialect and never feed the export back.",
 ["sqldef.go","adapter/database.go"]+AD,[("dump","adapter/database.go DumpDDLs; adapter/* DumpTableDDL, Views, Triggers")])
p("C11","An apply that fails stops, rolls back and reports failure",
 "When the database rejects a statement, the connection is lost, or the transaction cannot be started or committed, the tool sends no further planned statement, rolls the transaction back if it still can, prints the error and exits non-zero; it never exits 0 unless every planned statement was executed and the commit succeeded. On databases with transactional DDL a failed apply leaves the schema unchanged.",
 ["fault_sequences","crash_points","inputs"],"for every dialect, every plan and every failure position: begin, each statement, commit, and loss of the connection at each of those points",
 "No existing test injects a failure into an apply.",
 ["adapter/database.go","sqldef.go"],[("transaction","adapter/database.go RunDDLs"),("exit status","sqldef.go Run")])
p("C12","A schema that could not be read completely is never acted upon",
 "If connecting to the database or reading any part of its current schema fails - an error reply, a truncated result, or a lost connection, at any of the reads - the tool prints an error, exits non-zero and sends no statement that writes, in every mode; export does not present a partial schema as if it were complete.",
 ["fault_sequences","crash_points"],"for every dialect, mode and position of the failing read, including failures in the middle of a result set",
 "No existing test makes a read fail; acting on a partial schema would re-create or drop live objects.",
 AD+["adapter/database.go","sqldef.go"],[("error propagation","adapter/* TableNames, DumpTableDDL, Views, Triggers; adapter/database.go DumpDDLs")])
p("C13","Invalid desired input is refused before anything is changed",
 "If the desired file is unreadable, is not valid DDL, contains a statement that is not a supported declaration (such as INSERT, DROP or SELECT), declares the same table, index, policy, view, trigger or foreign key twice, or an index on a table the file does not declare, the tool prints an error, exits non-zero and sends no statement that writes - even when the statements before the bad one are valid and imply changes.",
 ["inputs"],"for every dialect, every kind of invalid statement and every position of it among valid ones, in apply and dry-run mode",
 "Tests cover two failing inputs on MySQL only.",
 [PAR,GEN,"sqldef.go",SP],[("parse errors","schema/parser.go parseDDLs, parseDDL"),("duplicate checks","schema/generator.go generateDDLsForCreateIndex, generateDDLsForCreateView, generateDDLsForCreatePolicy, generateDDLsForAddForeignKey")])
p("C14","What the tool reports is what happened",
 "In apply mode the statements printed are exactly the statements executed, in the same order and with the same text, each printed before or when it is executed; nothing is executed without being printed. 'Nothing is modified' is printed exactly when the plan is empty, and then nothing is executed; exit status is 0 exactly when the request was carried out.",
 ["inputs","histories"],"for every dialect, mode and pair of schemas, including runs that fail midway",
 "Tests compare output to fixed text and never look at what the server received.",
 ["sqldef.go","adapter/database.go"],[("printing and executing","adapter/database.go RunDDLs")])
p("C15","The tool connects to exactly the configured target",
 "The server contacted (host and port or socket), the user, the password, the database and (PostgreSQL) the SSL settings presented are exactly those configured by the command line, its documented defaults and the documented environment variables, with the documented precedence and whatever characters the values contain; an invocation without exactly one database name connects nowhere and exits non-zero.",
 ["configurations","inputs"],"for every dialect, every subset of the connection options and environment variables, and values with reserved characters",
 "Tests only ever connect with fixed default credentials.",
 ["cmd/mysqldef/mysqldef.go","cmd/psqldef/psqldef.go","cmd/mssqldef/mssqldef.go","cmd/sqlite3def/sqlite3def.go"]+AD,[("option parsing","cmd/*/main parseOptions"),("DSN","adapter/* BuildDSN")])
p("C16","The plan is a function of the current schema and the desired file",
 "Given the same database schema and the same desired file, every run produces the same statements in the same order and the same output; the order in which the database happens to return its catalog rows, the order of unrelated objects in it, and how the file is supplied (path or standard input) do not change which statements are planned or their final effect.",
 ["inputs","schedules"],"for every dialect, pair of schemas and catalog row order; repeated runs",
 "Tests run each case once, and map iteration order or catalog order varies between runs.",
 [GEN]+AD+["sqldef.go"],[("ordering","adapter/mssql/mssql.go getIndexDefs; schema/generator.go generateDDLs")])
p("C17","Only the target database and the named objects are affected",
 "Objects of other databases on the same server, and objects of other schemas or tables that merely share a table, column, index, constraint, view or trigger name with an object being managed, never influence the plan and are never touched by it.",
 ["inputs","histories"],"for every dialect and every pair of schemas, with same-named objects in other databases, other schemas and other tables",
 "Tests use one database with a handful of differently named objects.",
 AD+[GEN,PAR],[("catalog filters","adapter/mysql/mysql.go Views; adapter/postgres/postgres.go getColumns, getPrimaryKeyColumns, getForeginDefs; adapter/mssql/mssql.go"),("name qualification","schema/generator.go escapeTableName; schema/parser.go normalizedTableName")])
p("C18","An interrupted apply can always be completed by running again",
 "If an apply stopped after any of its statements - on MySQL leaving the statements before it in force, on the others after the rollback - running the tool again with the same desired file succeeds and reaches the desired schema, after which it plans nothing.",
 ["crash_points","fault_sequences","histories"],"for every plan of two or more statements and every position at which it stopped, including repeated interruptions",
 "No existing test interrupts an apply.",
 [GEN,"adapter/database.go"],[("replanning from the actual state","schema/generator.go GenerateIdempotentDDLs")])
with open("properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P), max(len(d["title"]) for d in P))
