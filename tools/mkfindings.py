#!/usr/bin/env python3
"""Writes known_findings.json from the output of 'vharness knownscan' (argument 1).
Run by hand when a finding is added or repaired; no check runs it."""
import json, sys
WHY = {
 "k:column-moved": "moving a column of a MySQL table forward next to others leaves a plan for the next run",
 "k:drop-referenced": "a table is dropped before the table whose foreign key references it",
 "k:filtered-index": "the predicate of a SQL Server index is not read from the database",
 "k:fk-index": "the index MySQL makes for a foreign key is mixed up with a declared index that serves the foreign key",
 "k:identity": "IDENTITY of an existing SQL Server column is changed by dropping the column or adding one of the same name",
 "k:identity-nullable": "NOT NULL of an identity column is dropped before its identity",
 "k:identity-options": "options of an identity are neither read nor compared",
 "k:index-clustered": "CLUSTERED/NONCLUSTERED of an index is not compared",
 "k:index-kind": "the prefix length of an index column is not compared",
 "k:index-method": "the access method of an index is not compared",
 "k:pk-clustered": "CLUSTERED/NONCLUSTERED of a primary key is not compared",
 "k:pk-name": "a primary key that is not named <table>_pkey is read as a unique index besides",
 "k:pk-nullable": "a column that leaves the primary key and becomes nullable stays NOT NULL on the first run",
 "k:precision": "precision and scale of PostgreSQL types other than character types are not read",
 "k:references": "REFERENCES on a column of an existing table is ignored",
 "k:serial": "ALTER COLUMN TYPE with serial, which is no type",
 "k:unique-constraint": "a UNIQUE constraint of PostgreSQL is not added, and dropped with DROP INDEX",
 "k:unique-export": "the index of a UNIQUE constraint is exported besides the constraint",
 "k:check-name": "a check constraint with a name of its own is dropped by the name the tool would have given it",
 "k:check-columns": "a check that uses other columns than the one it is declared at is not recognized in the dump",
 "k:view-columns": "CREATE OR REPLACE VIEW is used although columns of the view change or go",
 "k:view-dropped-late": "SQLite: an obsolete view is dropped after the columns are, and SQLite drops no column while a view uses something that is gone",
 "k:used-column-type": "the type of a column that a view or policy uses is changed without dropping the view or policy, which PostgreSQL refuses",
 "k:view-on-view": "of two obsolete views the one the other uses is dropped first",
 "k:zerofill": "ZEROFILL is not compared",
 "k:fk-names": "foreign keys of the same name on two tables of a schema are read as one",
 "k:file-name": "the SQLite driver takes what follows a question mark in a file name as options",
 "k:export-order": "tables are exported in the order of their names (MySQL) or in the order they were made (PostgreSQL, MSSQL) and views (PostgreSQL) in the order they were first made, before what they refer to",
 "k:index-default-kind": "an index of unspecified kind is added as CLUSTERED",
 "k:view-case": "the names of views are taken in lower case (the parser's test suite pins that), so a MySQL view or a quoted PostgreSQL view of another name can not be dropped or replaced",
 "k:quoted-expression": "the quotes of a name with uppercase letters are lost in PostgreSQL check, index and policy expressions",
 "k:quoted-table-column": "a column qualified by a quoted table name is not parsed",
 "k:names": "SQL Server names that need brackets are read without them",
}
fs = json.load(open(sys.argv[1]))
seen = {}
for f in fs:
    f["why"] = WHY[f["reason"]]
    k = f["id"]
    seen[k] = seen.get(k, 0) + 1
    if seen[k] > 1: f["id"] = "%s-%d" % (k, seen[k])
fixed = [l.rstrip("\n") for l in open("/verif/tools/fixed.txt") if l.strip()]
json.dump({"findings": fs, "fixed": fixed}, open("/verif/known_findings.json", "w"), indent=1)
open("/verif/known_findings.json", "a").write("\n")
print(len(fs), "findings", len(fixed), "fixed")
