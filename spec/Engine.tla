------------------------------- MODULE Engine -------------------------------
(* The database servers as sqldef sees them: the schema state and the effect *)
(* (or rejection) of every DDL statement, per dialect d in                   *)
(*   {"mysql", "pg", "mssql", "sqlite"}.                                     *)
(*                                                                           *)
(* Exec(d, st, ops) is the transition of one statement (a sequence of        *)
(* abstract operations): [ok, why, st].  Every table, column, key, foreign   *)
(* key, check, policy, view and trigger carries an incarnation id, so that   *)
(* "the same object survived" is observable.                                 *)
EXTENDS Types

EmptyDB == [tables |-> << >>, views |-> << >>, trigs |-> << >>, nid |-> 1]

Ok(st) == [ok |-> TRUE, why |-> "", st |-> st]
Err(st, why) == [ok |-> FALSE, why |-> why, st |-> st]

Txn(d) == d # "mysql"      \* DDL is transactional (MySQL: implicit commit)

DefSchema(d) == CASE d = "pg" -> "public" [] d = "mssql" -> "dbo" [] OTHER -> ""
ThisDB == "app"            \* the database the server under test is asked for

\* resolve a possibly qualified name
Res(d, t) ==
  IF t.s = "" \/ (d \in {"mysql", "sqlite"} /\ t.s \in {ThisDB, "main"}) THEN [s |-> DefSchema(d), n |-> t.n]
  ELSE [s |-> t.s, n |-> t.n]

TIx(st, r) == IndexWhere(st.tables, LAMBDA x : x.s = r.s /\ x.n = r.n)
VIx(st, r) == IndexWhere(st.views, LAMBDA x : x.s = r.s /\ x.n = r.n)
GIx(st, n) == IndexWhere(st.trigs, LAMBDA x : x.n = n)
CIx(t, c) == IndexWhere(t.cols, LAMBDA x : x.n = c)
KIx(t, n) == IndexWhere(t.keys, LAMBDA x : x.name = n)
PIx(t) == IndexWhere(t.keys, LAMBDA x : x.kind = "primary")
FIx(t, n) == IndexWhere(t.fks, LAMBDA x : x.name = n)
HIx(t, n) == IndexWhere(t.checks, LAMBDA x : x.name = n)
LIx(t, n) == IndexWhere(t.pols, LAMBDA x : x.n = n)
HasCol(t, c) == CIx(t, c) # 0
ColNamesOf(t) == {t.cols[i].n : i \in DOMAIN t.cols}
KeyColNames(k) == [i \in DOMAIN k.cols |-> k.cols[i].c]

PutTable(st, i, t) == [st EXCEPT !.tables[i] = t]
Fresh(st) == st.nid
Bump(st) == [st EXCEPT !.nid = @ + 1]

----------------------------------------------------------------------------
(* Names the server generates.                                              *)

RelNames(st, s) ==   \* PostgreSQL relation namespace of a schema
  {st.tables[i].n : i \in {j \in DOMAIN st.tables : st.tables[j].s = s}}
  \cup UNION {{st.tables[i].keys[k].name : k \in DOMAIN st.tables[i].keys} : i \in {j \in DOMAIN st.tables : st.tables[j].s = s}}
  \cup {st.views[i].n : i \in {j \in DOMAIN st.views : st.views[j].s = s}}

RECURSIVE Uniq(_, _, _)
Uniq(base, taken, k) == LET n == IF k = 0 THEN base ELSE base \o ToString(k)
                        IN IF n \in taken THEN Uniq(base, taken, k + 1) ELSE n

RECURSIVE UniqMy(_, _, _)
UniqMy(base, taken, k) == LET n == IF k = 1 THEN base ELSE base \o "_" \o ToString(k)
                          IN IF n \in taken THEN UniqMy(base, taken, k + 1) ELSE n

KeyNames(t) == {t.keys[i].name : i \in DOMAIN t.keys}
\* the constraints of a table
ConNames(t) == {t.keys[i].name : i \in {j \in DOMAIN t.keys : t.keys[j].con}} \cup {t.fks[i].name : i \in DOMAIN t.fks} \cup {t.checks[i].name : i \in DOMAIN t.checks}

\* SQL Server: the names of a schema's objects; t may be a table still being made
MsConNames(t) == ConNames(t) \cup ({t.cols[i].defname : i \in DOMAIN t.cols} \ {""})
MsNames(st, t) ==
  {t.n} \cup MsConNames(t)
  \cup UNION {{st.tables[i].n} \cup (IF st.tables[i].id = t.id THEN {} ELSE MsConNames(st.tables[i])) : i \in {j \in DOMAIN st.tables : st.tables[j].s = t.s}}
  \cup {st.views[i].n : i \in {j \in DOMAIN st.views : st.views[j].s = t.s}}
  \cup {st.trigs[i].n : i \in {j \in DOMAIN st.trigs : st.trigs[j].t.s = t.s}}

AutoKeyName(d, st, t, k) ==
  CASE k.kind = "primary" /\ d = "mysql" -> "PRIMARY"
    [] k.kind = "primary" /\ d = "sqlite" -> "PRIMARY"
    [] k.kind = "primary" /\ d = "pg" -> Uniq(t.n \o "_pkey", RelNames(st, t.s) \cup KeyNames(t), 0)
    [] k.kind = "primary" /\ d = "mssql" -> "PK__" \o t.n \o "__" \o ToString(st.nid)
    [] d = "mysql" -> UniqMy(k.cols[1].c, KeyNames(t), 1)
    [] d = "pg" -> Uniq(t.n \o "_" \o Join(KeyColNames(k), "_") \o (IF k.con THEN "_key" ELSE "_idx"), RelNames(st, t.s) \cup KeyNames(t), 0)
    [] d = "mssql" -> "UQ__" \o t.n \o "__" \o ToString(st.nid)
    [] OTHER -> "sqlite_autoindex_" \o t.n \o "_" \o ToString(Len(t.keys) + 1)

AutoFkName(d, st, t, f) ==
  CASE d = "mysql" -> Uniq(t.n \o "_ibfk_", {t.fks[i].name : i \in DOMAIN t.fks}, 1)
    [] d = "pg" -> Uniq(t.n \o "_" \o Join(f.cols, "_") \o "_fkey", ConNames(t), 0)
    [] d = "mssql" -> "FK__" \o t.n \o "__" \o ToString(st.nid)
    [] OTHER -> "fk_" \o ToString(Len(t.fks) + 1)

AutoCheckName(d, st, t, c) ==
  CASE d = "pg" -> Uniq(t.n \o (IF Len(c.cols) = 1 THEN "_" \o c.cols[1] ELSE "") \o "_check", ConNames(t), 0)
    [] d = "mysql" -> Uniq(t.n \o "_chk_", ConNames(t), 1)
    [] d = "mssql" -> "CK__" \o t.n \o "__" \o ToString(st.nid)
    [] OTHER -> "ck_" \o ToString(Len(t.checks) + 1)

----------------------------------------------------------------------------
(* Columns.                                                                 *)

SerialBase(b) == CASE b = "serial" -> "integer" [] b = "bigserial" -> "bigint" [] b = "smallserial" -> "smallint" [] OTHER -> b
IsSerial(d, b) == d = "pg" /\ b \in {"serial", "bigserial", "smallserial"}

DropDefPrefix == "DF__"

\* the stored column for a column definition
MkCol(d, st, t, cd) ==
  LET nt == NormType(d, cd.typ)
      ser == IsSerial(d, nt.base)
      base == IF ser THEN SerialBase(nt.base) ELSE nt.base
      def == IF ser THEN [k |-> "serial", v |-> t.n \o "_" \o cd.name \o "_seq"] ELSE NormDef(d, nt.base, cd.def)
      notnull == cd.nn = "notnull" \/ ser \/ (d = "pg" /\ cd.ident.has) \/ (d = "mssql" /\ cd.ident.has)
                 \/ (cd.key = "primary" /\ d # "sqlite")
  IN [n |-> cd.name, id |-> st.nid, base |-> base, args |-> nt.args, arr |-> nt.arr,
      null |-> ~notnull, def |-> def,
      defname |-> IF d = "mssql" /\ cd.def.k # "none" THEN (IF cd.defname # "" THEN cd.defname ELSE "DF__" \o t.n \o "__" \o cd.name \o "__" \o ToString(st.nid)) ELSE "",
      defauto |-> cd.defname = "", hasdef |-> cd.def.k # "none",
      auto |-> cd.auto, onupd |-> cd.onupd, charset |-> cd.charset, collate |-> cd.collate,
      comment |-> cd.comment, ident |-> cd.ident, gen |-> cd.gen]

\* columns whose definition is invalid on its own
ColDefError(d, cd) ==
  LET nt == NormType(d, cd.typ) IN
  CASE d = "mysql" /\ cd.nn = "notnull" /\ cd.def.k = "null" -> "invalid default NULL for NOT NULL column " \o cd.name
    [] d = "mysql" /\ nt.base \in {"text", "tinytext", "mediumtext", "longtext", "blob", "tinyblob", "mediumblob", "longblob", "json", "geometry", "point"}
         /\ cd.def.k \in {"str", "num", "expr"} -> "BLOB/TEXT column can't have a default value: " \o cd.name
    [] d = "mysql" /\ nt.base \in {"varchar", "varbinary"} /\ nt.args = << >> -> "length required for " \o cd.name
    [] d = "mysql" /\ nt.base \in {"enum", "set"} /\ nt.args = << >> -> "values required for " \o cd.name
    [] d = "mysql" /\ cd.auto /\ cd.def.k # "none" -> "auto_increment column cannot have a default: " \o cd.name
    [] d = "mysql" /\ cd.auto /\ nt.base \notin NumericBases -> "incorrect column specifier for auto_increment: " \o cd.name
    [] d = "mysql" /\ nt.base = "enum" /\ cd.def.k = "str" /\ cd.def.q \notin Range(nt.args) -> "invalid default for enum " \o cd.name
    [] d = "mysql" /\ nt.base \in {"date", "datetime", "timestamp"} /\ nt.base = "date" /\ cd.def.k = "expr" -> "invalid default for " \o cd.name
    [] d = "mysql" /\ nt.base \in NumericBases /\ cd.def.k = "str" /\ cd.def.n = "" -> "invalid default for " \o cd.name
    [] cd.key = "primary" /\ cd.nn = "null" /\ d # "sqlite" -> "primary key column declared NULL: " \o cd.name
    [] d = "pg" /\ cd.ident.has /\ (cd.def.k \notin {"none"} \/ cd.nn = "null") -> "conflicting identity definition for " \o cd.name
    [] d = "pg" /\ IsSerial(d, nt.base) /\ (cd.ident.has \/ cd.def.k # "none" \/ cd.nn = "null") -> "conflicting serial definition for " \o cd.name
    [] d = "pg" /\ cd.ident.has /\ nt.base \notin {"smallint", "integer", "bigint"} -> "identity column type for " \o cd.name
    [] d = "pg" /\ nt.base \in {"smallint", "integer", "bigint", "numeric"} /\ cd.def.k \in {"str"} /\ cd.def.n = "" -> "invalid default for " \o cd.name
    [] d = "pg" /\ nt.base = "boolean" /\ cd.def.k = "num" -> "boolean default of type integer for " \o cd.name
    [] d = "mssql" /\ cd.ident.has /\ nt.base \notin {"int", "bigint", "smallint", "tinyint", "numeric"} -> "identity column type for " \o cd.name
    [] d = "mssql" /\ cd.ident.has /\ cd.def.k # "none" -> "default on identity column " \o cd.name
    [] d = "mssql" /\ cd.ident.has /\ cd.nn = "null" -> "nullable identity column " \o cd.name
    [] OTHER -> ""

BlobBases == {"text", "tinytext", "mediumtext", "longtext", "blob", "tinyblob", "mediumblob", "longblob"}

----------------------------------------------------------------------------
(* Keys.                                                                    *)

\* is `cols` (sequence of names) a leftmost prefix of the columns of key k
Covers(k, cols) == k.kind \in {"primary", "unique", "index"} /\ IsPrefixOf(cols, KeyColNames(k))
HasCover(t, cols) == \E i \in DOMAIN t.keys : Covers(t.keys[i], cols)

UniqueOn(t, cols) == \E i \in DOMAIN t.keys : /\ t.keys[i].kind \in {"primary", "unique"} /\ t.keys[i].where = ""
                                              /\ Range(KeyColNames(t.keys[i])) = Range(cols) /\ Len(t.keys[i].cols) = Len(cols)

KeyError(d, st, t, k) ==
  LET dup == \E i, j \in DOMAIN k.cols : i # j /\ k.cols[i].c = k.cols[j].c
      missing == {i \in DOMAIN k.cols : ~HasCol(t, k.cols[i].c) /\ k.cols[i].x = FALSE}
      incmiss == {i \in DOMAIN k.incl : ~HasCol(t, k.incl[i])}
  IN CASE missing # {} -> "key column does not exist in table " \o t.n
       [] incmiss # {} -> "included column does not exist in table " \o t.n
       [] dup -> "duplicate column in key " \o k.name
       [] k.kind = "primary" /\ PIx(t) # 0 -> "multiple primary keys on " \o t.n
       [] ~k.auto /\ d \in {"mysql", "mssql"} /\ KIx(t, k.name) # 0 -> "duplicate key name " \o k.name
       [] ~k.auto /\ d = "pg" /\ k.name \in RelNames(st, t.s) \cup {t.n} \cup KeyNames(t) \cup (IF k.con THEN ConNames(t) ELSE {}) -> "relation already exists: " \o k.name
       [] ~k.auto /\ d = "sqlite" /\ k.name \in RelNames(st, t.s) -> "index already exists: " \o k.name
       [] d = "mssql" /\ ~k.auto /\ k.con /\ k.name \in MsNames(st, t) -> "object name already used: " \o k.name
       [] d = "mysql" /\ k.kind \in {"primary", "unique", "index"}
            /\ \E i \in DOMAIN k.cols : ~k.cols[i].x /\ t.cols[CIx(t, k.cols[i].c)].base \in BlobBases /\ k.cols[i].len = ""
              -> "BLOB/TEXT column used in key without length: " \o k.name
       [] d = "mysql" /\ k.kind = "fulltext" /\ \E i \in DOMAIN k.cols : t.cols[CIx(t, k.cols[i].c)].base \notin StringBases -> "column cannot be part of FULLTEXT index"
       [] d = "mssql" /\ \E i \in DOMAIN k.cols : t.cols[CIx(t, k.cols[i].c)].base \in {"text", "ntext", "image", "xml"} -> "column type invalid as key column in " \o k.name
       [] d = "mssql" /\ k.clus = "clustered" /\ \E i \in DOMAIN t.keys : t.keys[i].clus = "clustered" -> "more than one clustered index on " \o t.n
       [] OTHER -> ""

\* resolved clustering (SQL Server): a primary key is clustered unless told otherwise or another clustered index exists
ClusOf(d, t, k) ==
  IF d # "mssql" THEN "" ELSE
  IF k.clus # "" THEN k.clus ELSE
  IF k.kind = "primary" /\ ~\E i \in DOMAIN t.keys : t.keys[i].clus = "clustered" THEN "clustered" ELSE "nonclustered"

\* add key k (without validity check) to table t; primary key columns become NOT NULL.
\* MySQL drops a foreign key's implicit index once another index can serve.
AddKeyTo(d, st, t, k0) ==
  LET k == [k0 EXCEPT !.name = IF k0.auto THEN AutoKeyName(d, st, t, k0) ELSE (IF d = "mysql" /\ k0.kind = "primary" THEN "PRIMARY" ELSE k0.name),
                      !.clus = ClusOf(d, t, k0)]
      kk == [name |-> k.name, kind |-> k.kind, cols |-> k.cols, where |-> k.where, incl |-> k.incl, opts |-> k.opts,
             clus |-> k.clus, part |-> k.part, con |-> k.con, auto |-> k.auto, id |-> st.nid, wcols |-> k.wcols, implicit |-> FALSE]
      cols == KeyColNames(k)
      t1 == IF k.kind = "primary" /\ d # "sqlite"
            THEN [t EXCEPT !.cols = MapSeq(@, LAMBDA c : IF c.n \in Range(cols) THEN [c EXCEPT !.null = FALSE] ELSE c)]
            ELSE t
      keys1 == IF d = "mysql" THEN Filter(t1.keys, LAMBDA x : ~(x.implicit /\ Covers(kk, KeyColNames(x)))) ELSE t1.keys
  IN [t1 EXCEPT !.keys = Append(keys1, kk)]

\* MySQL: an AUTO_INCREMENT column must be the first column of some key
AutoIncError(d, t) ==
  IF d # "mysql" THEN "" ELSE
  LET as == {i \in DOMAIN t.cols : t.cols[i].auto} IN
  IF Cardinality(as) > 1 THEN "there can be only one auto column in " \o t.n
  ELSE IF \E i \in as : ~\E k \in DOMAIN t.keys : t.keys[k].cols # << >> /\ t.keys[k].cols[1].c = t.cols[i].n
       THEN "auto column must be defined as a key in " \o t.n
       ELSE ""

----------------------------------------------------------------------------
(* Foreign keys.                                                            *)

FkRefTable(d, st, t, f) ==
  LET r == Res(d, f.ref) IN IF r.s = t.s /\ r.n = t.n THEN t ELSE
     LET i == TIx(st, r) IN IF i = 0 THEN t ELSE st.tables[i]
FkRefExists(d, st, t, f) == LET r == Res(d, f.ref) IN (r.s = t.s /\ r.n = t.n) \/ TIx(st, r) # 0

FkRcols(d, st, t, f) ==
  IF f.rcols # << >> THEN f.rcols
  ELSE LET rt == FkRefTable(d, st, t, f) IN IF PIx(rt) = 0 THEN << >> ELSE KeyColNames(rt.keys[PIx(rt)])

TypeCompat(d, a, b) == IF d = "mysql" THEN a.base = b.base ELSE
                       IF d = "pg" THEN PGCastFamily(a.base) = PGCastFamily(b.base) ELSE a.base = b.base \/ d = "sqlite"

FkError(d, st, t, f) ==
  LET rt == FkRefTable(d, st, t, f)
      rc == FkRcols(d, st, t, f)
  IN CASE \E i \in DOMAIN f.cols : ~HasCol(t, f.cols[i]) -> "foreign key column does not exist in " \o t.n
       [] ~FkRefExists(d, st, t, f) /\ d # "sqlite" -> "referenced table does not exist: " \o f.ref.n
       [] d = "sqlite" -> ""
       [] rc = << >> -> "no primary key to reference in " \o rt.n
       [] Len(rc) # Len(f.cols) -> "foreign key column count mismatch on " \o t.n
       [] \E i \in DOMAIN rc : ~HasCol(rt, rc[i]) -> "referenced column does not exist in " \o rt.n
       [] d = "mysql" /\ ~HasCover(rt, rc) -> "missing index for referenced columns in " \o rt.n
       [] d # "mysql" /\ ~UniqueOn(rt, rc) -> "no unique constraint matching referenced columns in " \o rt.n
       [] \E i \in DOMAIN rc : ~TypeCompat(d, t.cols[CIx(t, f.cols[i])], rt.cols[CIx(rt, rc[i])]) -> "incompatible foreign key column types in " \o t.n
       [] (f.del = "set null" \/ f.upd = "set null") /\ \E i \in DOMAIN f.cols : ~t.cols[CIx(t, f.cols[i])].null /\ d # "pg" -> "SET NULL on NOT NULL column in " \o t.n
       [] ~f.auto /\ d = "mysql" /\ \E i \in DOMAIN st.tables : st.tables[i].n # t.n /\ FIx(st.tables[i], f.name) # 0 -> "duplicate foreign key name " \o f.name
       [] ~f.auto /\ FIx(t, f.name) # 0 -> "duplicate foreign key name " \o f.name
       [] ~f.auto /\ d = "pg" /\ f.name \in ConNames(t) -> "duplicate constraint name " \o f.name
       [] ~f.auto /\ d = "mssql" /\ f.name \in MsNames(st, t) -> "object name already used: " \o f.name
       [] OTHER -> ""

AddFkTo(d, st, t, f) ==
  LET name == IF f.auto THEN AutoFkName(d, st, t, f) ELSE f.name
      ff == [name |-> name, cols |-> f.cols, ref |-> Res(d, f.ref), rcols |-> FkRcols(d, st, t, f),
             del |-> f.del, upd |-> f.upd, nfr |-> f.nfr, auto |-> f.auto, idx |-> f.idx, id |-> st.nid]
      t1 == [t EXCEPT !.fks = Append(@, ff)]
  IN IF d = "mysql" /\ ~HasCover(t, f.cols)
     THEN LET kn == IF f.idx # "" THEN f.idx ELSE IF f.auto THEN UniqMy(f.cols[1], KeyNames(t), 1) ELSE name
              kk == [name |-> kn, kind |-> "index",
                     cols |-> [i \in DOMAIN f.cols |-> [c |-> f.cols[i], len |-> "", desc |-> FALSE, x |-> FALSE]],
                     where |-> "", incl |-> << >>, opts |-> << >>, clus |-> "", part |-> "", con |-> FALSE,
                     auto |-> TRUE, id |-> st.nid, wcols |-> << >>, implicit |-> TRUE]
          IN [t1 EXCEPT !.keys = Append(@, kk)]
     ELSE t1

\* foreign keys of other tables (or of t itself when self = TRUE) that reference t
RefsTo(d, st, t, self) ==
  {<<i, j>> \in (DOMAIN st.tables) \X (1..20) :
     /\ j \in DOMAIN st.tables[i].fks
     /\ st.tables[i].fks[j].ref.s = t.s /\ st.tables[i].fks[j].ref.n = t.n
     /\ (self \/ ~(st.tables[i].s = t.s /\ st.tables[i].n = t.n))}

\* after removing something from t (giving t1), are all foreign keys still backed
FkBackingError(d, st, t, t1) ==
  IF d = "mysql" THEN
     (IF \E j \in DOMAIN t1.fks : ~HasCover(t1, t1.fks[j].cols) THEN "index needed in a foreign key constraint of " \o t.n
      ELSE IF \E p \in RefsTo(d, st, t, TRUE) :
                LET f == st.tables[p[1]].fks[p[2]] IN ~HasCover(t1, f.rcols)
           THEN "index needed in a foreign key constraint referencing " \o t.n ELSE "")
  ELSE IF d = "sqlite" THEN ""
  ELSE IF \E p \in RefsTo(d, st, t, TRUE) :
            LET f == st.tables[p[1]].fks[p[2]] IN UniqueOn(t, f.rcols) /\ ~UniqueOn(t1, f.rcols)
       THEN "constraint is referenced by a foreign key: " \o t.n ELSE ""

----------------------------------------------------------------------------
(* Views, triggers and policies: dependencies.                              *)

ViewRefs(d, v) == {Res(d, v.refs[i]) : i \in DOMAIN v.refs}

RefColsAvail(d, st, v) ==
  UNION {LET i == TIx(st, r) j == VIx(st, r) IN
           IF i # 0 THEN ColNamesOf(st.tables[i]) ELSE IF j # 0 THEN Range(st.views[j].cols) ELSE {} : r \in ViewRefs(d, v)}

ViewError(d, st, op) ==
  LET rs == ViewRefs(d, op) IN
  IF \E r \in rs : TIx(st, r) = 0 /\ VIx(st, r) = 0 /\ d # "sqlite" THEN "relation used by view does not exist: " \o op.tbl.n
  ELSE IF d # "sqlite" /\ \E i \in DOMAIN op.rcols : op.rcols[i] # "*" /\ op.rcols[i] \notin RefColsAvail(d, st, op) \cup Range(op.cols)
       THEN "column used by view does not exist: " \o op.tbl.n
  ELSE ""

\* PostgreSQL: views that depend on column c of table t
PGViewDeps(d, st, t, c) ==
  {i \in DOMAIN st.views : [s |-> t.s, n |-> t.n] \in ViewRefs(d, st.views[i])
       /\ (c = "" \/ c \in Range(st.views[i].rcols) \/ "*" \in Range(st.views[i].rcols))}

PolUses(p, c) == c \in Range(p.ucols)

----------------------------------------------------------------------------
(* The operations.                                                          *)

MkCheck(d, st, t, c) ==
  [name |-> IF c.auto THEN AutoCheckName(d, st, t, c) ELSE c.name, col |-> c.col, expr |-> c.expr, cols |-> c.cols,
   noinh |-> c.noinh, nfr |-> c.nfr, auto |-> c.auto, id |-> st.nid]

CheckError(d, st, t, c) ==
  CASE \E i \in DOMAIN c.cols : ~HasCol(t, c.cols[i]) -> "check uses a column that does not exist in " \o t.n
    [] ~c.auto /\ c.name \in ConNames(t) -> "duplicate constraint name " \o c.name
    [] ~c.auto /\ d = "mssql" /\ c.name \in MsNames(st, t) -> "object name already used: " \o c.name
    [] OTHER -> ""

AddChecks(d, st, t, cs) ==
  FoldLeft(LAMBDA acc, c : IF ~acc.ok THEN acc ELSE
             LET e == CheckError(d, acc.st, acc.t, c) IN
             IF e # "" THEN [acc EXCEPT !.ok = FALSE, !.why = e]
             ELSE [acc EXCEPT !.t.checks = Append(@, MkCheck(d, acc.st, acc.t, c)), !.st.nid = @ + 1],
           [ok |-> TRUE, why |-> "", st |-> st, t |-> t], cs)

AddKeys(d, st, t, ks) ==
  FoldLeft(LAMBDA acc, k : IF ~acc.ok THEN acc ELSE
             LET e == KeyError(d, acc.st, acc.t, k) IN
             IF e # "" THEN [acc EXCEPT !.ok = FALSE, !.why = e]
             ELSE [acc EXCEPT !.t = AddKeyTo(d, acc.st, acc.t, k), !.st.nid = @ + 1],
           [ok |-> TRUE, why |-> "", st |-> st, t |-> t], ks)

AddFks(d, st, t, fs) ==
  FoldLeft(LAMBDA acc, f : IF ~acc.ok THEN acc ELSE
             LET e == FkError(d, acc.st, acc.t, f) IN
             IF e # "" THEN [acc EXCEPT !.ok = FALSE, !.why = e]
             ELSE [acc EXCEPT !.t = AddFkTo(d, acc.st, acc.t, f), !.st.nid = @ + 1],
           [ok |-> TRUE, why |-> "", st |-> st, t |-> t], fs)

\* key declared inline in a column definition
InlineKey(d, cd) ==
  [name |-> cd.keyname, kind |-> cd.key, cols |-> <<[c |-> cd.name, len |-> "", desc |-> FALSE, x |-> FALSE]>>, where |-> "",
   incl |-> << >>, opts |-> << >>, clus |-> "", part |-> "", wcols |-> << >>, con |-> d # "mysql", auto |-> cd.keyname = "" \/ d = "mysql"]
InlineKeys(d, cds) == FoldLeft(LAMBDA acc, cd : IF cd.key = "" THEN acc ELSE Append(acc, InlineKey(d, cd)), << >>, cds)
\* MySQL parses and ignores inline REFERENCES; it sorts the primary key first
InlineFks(d, cds) == IF d = "mysql" THEN << >> ELSE FoldLeft(LAMBDA acc, cd : acc \o cd.refs, << >>, cds)
InlineChecks(d, cds) == FoldLeft(LAMBDA acc, cd : acc \o cd.checks, << >>, cds)

AllKeys(d, op) ==
  LET ks == InlineKeys(d, op.cols) \o op.keys IN
  Filter(ks, LAMBDA k : k.kind = "primary") \o Filter(ks, LAMBDA k : k.kind = "unique") \o Filter(ks, LAMBDA k : k.kind \notin {"primary", "unique"})

AddCols(d, st, t, cds) ==
  FoldLeft(LAMBDA acc, cd : IF ~acc.ok THEN acc ELSE
             LET e == ColDefError(d, cd) IN
             IF e # "" THEN [acc EXCEPT !.ok = FALSE, !.why = e]
             ELSE IF d = "mssql" /\ cd.defname # "" /\ cd.defname \in MsNames(acc.st, acc.t) THEN [acc EXCEPT !.ok = FALSE, !.why = "object name already used: " \o cd.defname]
             ELSE IF HasCol(acc.t, cd.name) THEN [acc EXCEPT !.ok = FALSE, !.why = "duplicate column " \o cd.name]
             ELSE [acc EXCEPT !.t.cols = Append(@, MkCol(d, acc.st, acc.t, cd)), !.st.nid = @ + 1],
           [ok |-> TRUE, why |-> "", st |-> st, t |-> t], cds)

\* a primary key column explicitly declared NULL is an error
PkNullError(d, op) ==
  IF d = "sqlite" THEN FALSE ELSE
  \E k \in DOMAIN op.keys : op.keys[k].kind = "primary" /\ \E c \in DOMAIN op.cols : op.cols[c].nn = "null" /\ op.cols[c].name \in Range(KeyColNames(op.keys[k]))

IdentCount(t) == Cardinality({i \in DOMAIN t.cols : t.cols[i].ident.has})

NormKeyDups(d, t) == t

NameTaken(d, st, r) ==
  IF d = "pg" \/ d = "sqlite" THEN r.n \in RelNames(st, r.s)
  ELSE TIx(st, r) # 0 \/ VIx(st, r) # 0
       \/ (d = "mssql" /\ ((\E i \in DOMAIN st.tables : (st.tables[i].s = r.s /\ r.n \in MsConNames(st.tables[i])))
                            \/ (\E i \in DOMAIN st.trigs : (st.trigs[i].t.s = r.s /\ st.trigs[i].n = r.n))))

CreateTable(d, st, op) ==
  LET r == Res(d, op.tbl)
      t0 == [s |-> r.s, n |-> r.n, id |-> st.nid, cols |-> << >>, keys |-> << >>, fks |-> << >>, checks |-> << >>, pols |-> << >>,
             charset |-> op.charset, collate |-> op.collate]
      st0 == Bump(st)
      a == AddCols(d, st0, t0, op.cols)
      b == AddKeys(d, a.st, a.t, AllKeys(d, op))
      c == AddChecks(d, b.st, b.t, InlineChecks(d, op.cols) \o op.checks)
      f == AddFks(d, c.st, c.t, InlineFks(d, op.cols) \o op.fks)
  IN CASE d \in {"mysql", "sqlite"} /\ r.s # DefSchema(d) -> Err(st, "another database is addressed: " \o r.s)
       [] TIx(st, r) # 0 /\ op.ine -> Ok(st)
       [] NameTaken(d, st, r) -> Err(st, "table already exists: " \o r.n)
       [] op.cols = << >> -> Err(st, "table without columns: " \o r.n)
       [] PkNullError(d, op) -> Err(st, "primary key column declared NULL in " \o r.n)
       [] ~a.ok -> Err(st, a.why)
       [] ~b.ok -> Err(st, b.why)
       [] ~c.ok -> Err(st, c.why)
       [] ~f.ok -> Err(st, f.why)
       [] AutoIncError(d, f.t) # "" -> Err(st, AutoIncError(d, f.t))
       [] d = "mssql" /\ IdentCount(f.t) > 1 -> Err(st, "multiple identity columns in " \o r.n)
       [] OTHER -> Ok([f.st EXCEPT !.tables = Append(@, f.t)])

DropTable(d, st, op) ==
  LET r == Res(d, op.tbl)
      i == TIx(st, r)
  IN CASE i = 0 /\ op.ie -> Ok(st)
       [] i = 0 -> Err(st, "unknown table " \o r.n)
       [] d # "sqlite" /\ ~op.cascade /\ RefsTo(d, st, st.tables[i], FALSE) # {} -> Err(st, "table is referenced by a foreign key: " \o r.n)
       [] d = "pg" /\ ~op.cascade /\ PGViewDeps(d, st, st.tables[i], "") # {} -> Err(st, "view depends on table " \o r.n)
       [] OTHER -> Ok([st EXCEPT !.tables = RemoveIdx(@, i),
                                 !.trigs = Filter(@, LAMBDA g : ~(g.t.s = r.s /\ g.t.n = r.n))])

\* run F(t) on the table named in op
WithTable(d, st, tbl, F(_, _)) ==
  LET r == Res(d, tbl) i == TIx(st, r) IN
  IF i = 0 THEN Err(st, "unknown table " \o r.n) ELSE F(i, st.tables[i])

Place(cols, c, pos, after) ==
  IF pos = "first" THEN <<c>> \o cols
  ELSE IF pos = "after" THEN InsertAfter(cols, IndexWhere(cols, LAMBDA x : x.n = after), c)
  ELSE Append(cols, c)

AddColumn(d, st, op) ==
  WithTable(d, st, op.tbl, LAMBDA i, t :
    LET cd == op.col
        e == ColDefError(d, cd)
        st0 == Bump(st)
        t1 == [t EXCEPT !.cols = Place(@, MkCol(d, st, t, cd), op.pos, op.after)]
        b == AddKeys(d, st0, t1, InlineKeys(d, <<cd>>))
        c == AddChecks(d, b.st, b.t, cd.checks)
        f == AddFks(d, c.st, c.t, InlineFks(d, <<cd>>))
    IN CASE HasCol(t, cd.name) -> Err(st, "duplicate column " \o cd.name)
         [] e # "" -> Err(st, e)
         [] d = "mssql" /\ cd.defname # "" /\ cd.defname \in MsNames(st, t) -> Err(st, "object name already used: " \o cd.defname)
         [] op.pos = "after" /\ ~HasCol(t, op.after) -> Err(st, "unknown column in AFTER: " \o op.after)
         [] d = "sqlite" /\ cd.key # "" -> Err(st, "cannot add a PRIMARY KEY or UNIQUE column")
         [] d = "sqlite" /\ cd.nn = "notnull" /\ NormDef(d, cd.typ.base, cd.def).k = "none" -> Err(st, "cannot add a NOT NULL column with default value NULL")
         [] d = "sqlite" /\ cd.def.k = "expr" -> Err(st, "cannot add a column with non-constant default")
         [] ~b.ok -> Err(st, b.why)
         [] ~c.ok -> Err(st, c.why)
         [] ~f.ok -> Err(st, f.why)
         [] AutoIncError(d, f.t) # "" -> Err(st, AutoIncError(d, f.t))
         [] d = "mssql" /\ IdentCount(f.t) > 1 -> Err(st, "multiple identity columns in " \o t.n)
         [] OTHER -> Ok(PutTable(f.st, i, f.t)))

RenameInKeys(ks, a, b) == MapSeq(ks, LAMBDA k : [k EXCEPT !.cols = MapSeq(@, LAMBDA c : IF c.c = a THEN [c EXCEPT !.c = b] ELSE c)])

ChangeColumn(d, st, op) ==
  WithTable(d, st, op.tbl, LAMBDA i, t :
    LET cd == op.col
        e == ColDefError(d, cd)
        ix == CIx(t, op.old)
        old == t.cols[ix]
        inpk == PIx(t) # 0 /\ op.old \in Range(KeyColNames(t.keys[PIx(t)]))
        nc == [MkCol(d, st, t, cd) EXCEPT !.id = old.id, !.null = IF inpk THEN FALSE ELSE @]
        rest == RemoveIdx(t.cols, ix)
        cols1 == IF op.pos = "" THEN ReplaceAt(t.cols, ix, nc) ELSE Place(rest, nc, op.pos, op.after)
        t1 == [t EXCEPT !.cols = cols1, !.keys = RenameInKeys(@, op.old, cd.name)]
        b == AddKeys(d, Bump(st), t1, InlineKeys(d, <<cd>>))
        infk == (\E j \in DOMAIN t.fks : op.old \in Range(t.fks[j].cols)) \/
                (\E p \in RefsTo(d, st, t, TRUE) : op.old \in Range(st.tables[p[1]].fks[p[2]].rcols))
    IN CASE ix = 0 -> Err(st, "unknown column " \o op.old)
         [] e # "" -> Err(st, e)
         [] cd.name # op.old /\ HasCol(t, cd.name) -> Err(st, "duplicate column " \o cd.name)
         [] op.pos = "after" /\ (op.after = op.old \/ ~HasCol(t, op.after)) -> Err(st, "unknown column in AFTER: " \o op.after)
         [] inpk /\ cd.nn = "null" -> Err(st, "primary key column declared NULL: " \o cd.name)
         [] infk /\ nc.base # old.base -> Err(st, "column used in a foreign key cannot change type: " \o op.old)
         [] (\E j \in DOMAIN t.fks : op.old \in Range(t.fks[j].cols) /\ (t.fks[j].del = "set null" \/ t.fks[j].upd = "set null")) /\ ~nc.null
              -> Err(st, "SET NULL foreign key on NOT NULL column: " \o op.old)
         [] ~b.ok -> Err(st, b.why)
         [] \E k \in DOMAIN t1.keys : nc.base \in BlobBases /\ t1.keys[k].kind \in {"primary", "unique", "index"}
                 /\ \E c \in DOMAIN t1.keys[k].cols : t1.keys[k].cols[c].c = cd.name /\ t1.keys[k].cols[c].len = ""
              -> Err(st, "BLOB/TEXT column used in key without length: " \o cd.name)
         [] AutoIncError(d, b.t) # "" -> Err(st, AutoIncError(d, b.t))
         [] OTHER -> Ok(PutTable(b.st, i, b.t)))

DropColumn(d, st, op) ==
  WithTable(d, st, op.tbl, LAMBDA i, t :
    LET ix == CIx(t, op.name)
        c == op.name
        col == t.cols[ix]
        inKey(k) == c \in Range(KeyColNames(k)) \/ c \in Range(k.incl)
        keys1 == IF d = "mysql"
                 THEN Filter(MapSeq(t.keys, LAMBDA k : [k EXCEPT !.cols = Filter(@, LAMBDA x : x.c # c)]), LAMBDA k : k.cols # << >>)
                 ELSE Filter(t.keys, LAMBDA k : ~inKey(k) /\ c \notin Range(k.wcols))
        ownfk == \E j \in DOMAIN t.fks : c \in Range(t.fks[j].cols)
        reffk == \E p \in RefsTo(d, st, t, TRUE) : c \in Range(st.tables[p[1]].fks[p[2]].rcols)
        t1 == [t EXCEPT !.cols = RemoveIdx(@, ix), !.keys = keys1,
                        !.fks = IF d = "pg" THEN Filter(@, LAMBDA f : c \notin Range(f.cols)) ELSE @,
                        !.checks = Filter(@, LAMBDA h : c \notin Range(h.cols))]
    IN CASE ix = 0 /\ op.ie -> Ok(st)
         [] ix = 0 -> Err(st, "unknown column " \o c)
         [] Len(t.cols) = 1 -> Err(st, "cannot drop the only column of " \o t.n)
         [] ownfk /\ d \in {"mysql", "mssql", "sqlite"} -> Err(st, "column needed in a foreign key constraint: " \o c)
         [] reffk /\ d # "sqlite" -> Err(st, "column referenced by a foreign key constraint: " \o c)
         [] d = "mssql" /\ (\E k \in DOMAIN t.keys : inKey(t.keys[k])) -> Err(st, "an index or constraint depends on column " \o c)
         [] d = "mssql" /\ (\E h \in DOMAIN t.checks : c \in Range(t.checks[h].cols)) -> Err(st, "a check constraint depends on column " \o c)
         [] d = "mysql" /\ (\E h \in DOMAIN t.checks : c \in Range(t.checks[h].cols) /\ t.checks[h].cols # <<c>>) -> Err(st, "a check constraint depends on column " \o c)
         [] d = "mssql" /\ col.hasdef -> Err(st, "a default constraint depends on column " \o c)
         [] d = "sqlite" /\ (\E k \in DOMAIN t.keys : inKey(t.keys[k])) -> Err(st, "cannot drop an indexed, unique or primary key column " \o c)
         [] d = "sqlite" /\ (\E h \in DOMAIN t.checks : c \in Range(t.checks[h].cols) /\ t.checks[h].col # c) -> Err(st, "check uses column " \o c)
         [] d \in {"pg", "sqlite"} /\ PGViewDeps(d, st, t, c) # {} -> Err(st, "view depends on column " \o c)
         [] d = "pg" /\ (\E p \in DOMAIN t.pols : PolUses(t.pols[p], c)) -> Err(st, "policy depends on column " \o c)
         [] AutoIncError(d, t1) # "" -> Err(st, AutoIncError(d, t1))
         [] OTHER -> Ok(PutTable(st, i, t1)))

AddKey(d, st, op) ==
  WithTable(d, st, op.tbl, LAMBDA i, t :
    LET b == AddKeys(d, st, t, <<op.key>>) IN
    CASE op.ine /\ KIx(t, op.key.name) # 0 -> Ok(st)
      [] ~b.ok -> Err(st, b.why)
      [] d = "sqlite" /\ op.key.con -> Err(st, "syntax error: ALTER TABLE ADD CONSTRAINT")
      [] OTHER -> Ok(PutTable(b.st, i, b.t)))

\* remove key number k of table i
RemoveKey(d, st, i, t, k) ==
  LET t1 == [t EXCEPT !.keys = RemoveIdx(@, k)]
      e == FkBackingError(d, st, t, t1)
  IN CASE e # "" -> Err(st, e)
       [] AutoIncError(d, t1) # "" -> Err(st, AutoIncError(d, t1))
       [] OTHER -> Ok(PutTable(st, i, t1))

DropPrimary(d, st, op) ==
  WithTable(d, st, op.tbl, LAMBDA i, t :
    IF PIx(t) = 0 THEN Err(st, "no primary key on " \o t.n) ELSE RemoveKey(d, st, i, t, PIx(t)))

DropIndex(d, st, op) ==
  IF op.tbl.n # "" THEN
    WithTable(d, st, op.tbl, LAMBDA i, t :
      LET k == KIx(t, op.name) IN
      CASE k = 0 /\ op.ie -> Ok(st)
        [] k = 0 -> Err(st, "no such index " \o op.name)
        [] d = "mssql" /\ t.keys[k].con -> Err(st, "index enforces a constraint: " \o op.name)
        [] OTHER -> RemoveKey(d, st, i, t, k))
  ELSE
    LET s == IF op.tbl.s = "" THEN DefSchema(d) ELSE op.tbl.s
        i == IndexWhere(st.tables, LAMBDA t : t.s = s /\ KIx(t, op.name) # 0)
    IN CASE i = 0 /\ op.ie -> Ok(st)
         [] d \notin {"pg", "sqlite"} -> Err(st, "DROP INDEX needs a table")
         [] i = 0 -> Err(st, "no such index " \o op.name)
         [] st.tables[i].keys[KIx(st.tables[i], op.name)].con -> Err(st, "index enforces a constraint: " \o op.name)
         [] OTHER -> RemoveKey(d, st, i, st.tables[i], KIx(st.tables[i], op.name))

DropConstraint(d, st, op) ==
  WithTable(d, st, op.tbl, LAMBDA i, t :
    LET n == op.name
        k == KIx(t, n) f == FIx(t, n) h == HIx(t, n)
        dc == IndexWhere(t.cols, LAMBDA c : c.defname = n)
    IN CASE k # 0 /\ t.keys[k].con -> RemoveKey(d, st, i, t, k)
         [] f # 0 -> Ok(PutTable(st, i, [t EXCEPT !.fks = RemoveIdx(@, f)]))
         [] h # 0 -> Ok(PutTable(st, i, [t EXCEPT !.checks = RemoveIdx(@, h)]))
         [] d = "mssql" /\ dc # 0 -> Ok(PutTable(st, i, [t EXCEPT !.cols[dc].def = [k |-> "none", v |-> ""], !.cols[dc].defname = "", !.cols[dc].hasdef = FALSE]))
         [] op.ie -> Ok(st)
         [] OTHER -> Err(st, "no such constraint " \o n))

AddFk(d, st, op) ==
  WithTable(d, st, op.tbl, LAMBDA i, t :
    LET b == AddFks(d, st, t, <<op.fk>>) IN
    CASE d = "sqlite" -> Err(st, "syntax error: ALTER TABLE ADD CONSTRAINT")
      [] ~b.ok -> Err(st, b.why)
      [] OTHER -> Ok(PutTable(b.st, i, b.t)))

DropFk(d, st, op) ==
  WithTable(d, st, op.tbl, LAMBDA i, t :
    LET f == FIx(t, op.name) IN
    CASE d # "mysql" -> Err(st, "DROP FOREIGN KEY is not valid here")
      [] f = 0 -> Err(st, "no such foreign key " \o op.name)
      [] OTHER -> Ok(PutTable(st, i, [t EXCEPT !.fks = RemoveIdx(@, f)])))

AddCheck(d, st, op) ==
  WithTable(d, st, op.tbl, LAMBDA i, t :
    LET b == AddChecks(d, st, t, <<op.check>>) IN
    IF ~b.ok THEN Err(st, b.why) ELSE Ok(PutTable(b.st, i, b.t)))

WithColumn(d, st, op, F(_, _, _)) ==
  WithTable(d, st, op.tbl, LAMBDA i, t :
    LET c == CIx(t, op.name) IN IF c = 0 THEN Err(st, "unknown column " \o op.name) ELSE F(i, t, c))

PutCol(st, i, c, col) == [st EXCEPT !.tables[i].cols[c] = col]

AlterType(d, st, op) ==
  WithColumn(d, st, op, LAMBDA i, t, c :
    LET nt == NormType(d, op.typ)
        col == t.cols[c]
    IN CASE d # "pg" -> Err(st, "ALTER COLUMN TYPE is not valid here")
         [] IsSerial(d, nt.base) -> Err(st, "type does not exist: " \o nt.base)
         [] op.using = "" /\ ~PGAutoCast([base |-> col.base, arr |-> col.arr], nt) -> Err(st, "column cannot be cast automatically: " \o op.name)
         [] PGViewDeps(d, st, t, op.name) # {} -> Err(st, "cannot alter type of a column used by a view: " \o op.name)
         [] (\E p \in DOMAIN t.pols : PolUses(t.pols[p], op.name)) -> Err(st, "cannot alter type of a column used in a policy: " \o op.name)
         [] col.ident.has /\ nt.base \notin {"smallint", "integer", "bigint"} -> Err(st, "identity column type: " \o op.name)
         [] col.def.k = "str" /\ PGCastFamily(nt.base) \notin {"str"} /\ PGCastFamily(nt.base) # PGCastFamily(col.base) -> Err(st, "default cannot be cast automatically: " \o op.name)
         [] OTHER -> Ok(PutCol(st, i, c, [col EXCEPT !.base = nt.base, !.args = nt.args, !.arr = nt.arr])))

InPk(t, n) == PIx(t) # 0 /\ n \in Range(KeyColNames(t.keys[PIx(t)]))

SetNotNull(d, st, op) == WithColumn(d, st, op, LAMBDA i, t, c : IF d # "pg" THEN Err(st, "syntax error") ELSE Ok(PutCol(st, i, c, [t.cols[c] EXCEPT !.null = FALSE])))
DropNotNull(d, st, op) ==
  WithColumn(d, st, op, LAMBDA i, t, c :
    CASE d # "pg" -> Err(st, "syntax error")
      [] InPk(t, op.name) -> Err(st, "column is in a primary key: " \o op.name)
      [] t.cols[c].ident.has -> Err(st, "column is an identity column: " \o op.name)
      [] OTHER -> Ok(PutCol(st, i, c, [t.cols[c] EXCEPT !.null = TRUE])))
SetDefault(d, st, op) ==
  WithColumn(d, st, op, LAMBDA i, t, c :
    CASE d # "pg" -> Err(st, "syntax error")
      [] t.cols[c].ident.has -> Err(st, "column is an identity column: " \o op.name)
      [] t.cols[c].base \in {"smallint", "integer", "bigint", "numeric"} /\ op.def.k = "str" /\ op.def.n = "" -> Err(st, "invalid default for " \o op.name)
      [] t.cols[c].base = "boolean" /\ op.def.k = "num" -> Err(st, "boolean default of type integer: " \o op.name)
      [] OTHER -> Ok(PutCol(st, i, c, [t.cols[c] EXCEPT !.def = NormDef(d, t.cols[c].base, op.def), !.hasdef = op.def.k # "none"])))
DropDefault(d, st, op) ==
  WithColumn(d, st, op, LAMBDA i, t, c :
    CASE d # "pg" -> Err(st, "syntax error")
      [] t.cols[c].ident.has -> Err(st, "column is an identity column: " \o op.name)
      [] OTHER -> Ok(PutCol(st, i, c, [t.cols[c] EXCEPT !.def = [k |-> "none", v |-> ""], !.hasdef = FALSE])))
NoIdent == [has |-> FALSE, beh |-> "", opts |-> << >>, nfr |-> FALSE]
AddIdentity(d, st, op) ==
  WithColumn(d, st, op, LAMBDA i, t, c :
    CASE d # "pg" -> Err(st, "syntax error")
      [] t.cols[c].null -> Err(st, "column must be declared NOT NULL before identity can be added: " \o op.name)
      [] t.cols[c].ident.has -> Err(st, "column is already an identity column: " \o op.name)
      [] t.cols[c].def.k # "none" -> Err(st, "column already has a default value: " \o op.name)
      [] t.cols[c].base \notin {"smallint", "integer", "bigint"} -> Err(st, "identity column type: " \o op.name)
      [] OTHER -> Ok(PutCol(st, i, c, [t.cols[c] EXCEPT !.ident = op.ident])))
DropIdentity(d, st, op) ==
  WithColumn(d, st, op, LAMBDA i, t, c :
    CASE d # "pg" -> Err(st, "syntax error")
      [] ~t.cols[c].ident.has /\ op.ie -> Ok(st)
      [] ~t.cols[c].ident.has -> Err(st, "column is not an identity column: " \o op.name)
      [] OTHER -> Ok(PutCol(st, i, c, [t.cols[c] EXCEPT !.ident = NoIdent])))
SetIdentity(d, st, op) ==
  WithColumn(d, st, op, LAMBDA i, t, c :
    CASE d # "pg" -> Err(st, "syntax error")
      [] ~t.cols[c].ident.has -> Err(st, "column is not an identity column: " \o op.name)
      [] OTHER -> Ok(PutCol(st, i, c, [t.cols[c] EXCEPT !.ident.beh = op.beh])))

AddDefault(d, st, op) ==
  WithColumn(d, st, op, LAMBDA i, t, c :
    CASE d # "mssql" -> Err(st, "syntax error")
      [] t.cols[c].hasdef -> Err(st, "column already has a DEFAULT: " \o op.name)
      [] t.cols[c].ident.has -> Err(st, "default on identity column: " \o op.name)
      [] op.defname # "" /\ op.defname \in MsNames(st, t)
            -> Err(st, "object name already used: " \o op.defname)
      [] OTHER -> Ok(PutCol(Bump(st), i, c, [t.cols[c] EXCEPT !.def = NormDef(d, t.cols[c].base, op.def), !.hasdef = TRUE,
                        !.defauto = op.defname = "",
                        !.defname = IF op.defname # "" THEN op.defname ELSE "DF__" \o t.n \o "__" \o op.name \o "__" \o ToString(st.nid)])))

AlterColumnMs(d, st, op) ==
  WithTable(d, st, op.tbl, LAMBDA i, t :
    LET c == CIx(t, op.col.name)
        nt == NormType(d, op.col.typ)
    IN CASE d # "mssql" -> Err(st, "syntax error")
         [] c = 0 -> Err(st, "unknown column " \o op.col.name)
         [] OTHER -> Ok(PutCol(st, i, c, [t.cols[c] EXCEPT !.base = nt.base, !.args = nt.args, !.null = op.col.nn # "notnull"])))

CreateView(d, st, op) ==
  LET r == Res(d, op.tbl)
      j == VIx(st, r)
      e == ViewError(d, st, op)
      v == [s |-> r.s, n |-> r.n, def |-> op.def, cols |-> op.cols, refs |-> op.refs, rcols |-> op.rcols, text |-> op.text,
            names |-> op.names, id |-> IF j # 0 THEN st.views[j].id ELSE st.nid]
  IN CASE d \in {"mysql", "sqlite"} /\ r.s # DefSchema(d) -> Err(st, "another database is addressed: " \o r.s)
       [] j # 0 /\ op.ine -> Ok(st)
       [] j # 0 /\ ~op.orReplace -> Err(st, "view already exists: " \o r.n)
       [] op.orReplace /\ d \in {"sqlite", "mssql"} -> Err(st, "syntax error: CREATE OR REPLACE VIEW")
       [] j = 0 /\ NameTaken(d, st, r) -> Err(st, "relation already exists: " \o r.n)
       [] e # "" -> Err(st, e)
       [] r \in ViewRefs(d, op) -> Err(st, "view refers to itself: " \o r.n)
       [] d = "pg" /\ j # 0 /\ ~IsPrefixOf(st.views[j].cols, op.cols) -> Err(st, "cannot change name of or drop columns of view " \o r.n)
       [] j # 0 -> Ok([st EXCEPT !.views[j] = v])
       [] OTHER -> Ok([Bump(st) EXCEPT !.views = Append(@, v)])

DropView(d, st, op) ==
  LET r == Res(d, op.tbl) j == VIx(st, r) IN
  CASE j = 0 /\ op.ie -> Ok(st)
    [] j = 0 -> Err(st, "unknown view " \o r.n)
    [] d = "pg" /\ (\E k \in DOMAIN st.views : k # j /\ r \in ViewRefs(d, st.views[k])) -> Err(st, "another view depends on view " \o r.n)
    [] OTHER -> Ok([st EXCEPT !.views = RemoveIdx(@, j)])

CreateTrigger(d, st, op) ==
  LET r == Res(d, op.tbl)
      j == GIx(st, op.name)
      g == [n |-> op.name, t |-> r, time |-> op.time, event |-> op.event, each |-> op.each, body |-> op.body, text |-> op.text,
            id |-> IF j # 0 THEN st.trigs[j].id ELSE st.nid]
  IN CASE TIx(st, r) = 0 /\ VIx(st, r) = 0 -> Err(st, "trigger on unknown table " \o r.n)
       [] j # 0 /\ ~op.orAlter -> Err(st, "trigger already exists: " \o op.name)
       [] op.orAlter /\ d # "mssql" -> Err(st, "syntax error: CREATE OR ALTER")
       \* SQL Server: "because this trigger does not belong to this object"
       [] j # 0 /\ (st.trigs[j].t.s # g.t.s \/ st.trigs[j].t.n # g.t.n) -> Err(st, "trigger belongs to another table: " \o op.name)
       [] j # 0 -> Ok([st EXCEPT !.trigs[j] = g])
       [] OTHER -> Ok([Bump(st) EXCEPT !.trigs = Append(@, g)])

DropTrigger(d, st, op) ==
  LET j == GIx(st, op.name) IN
  CASE j = 0 /\ op.ie -> Ok(st)
    [] j = 0 -> Err(st, "unknown trigger " \o op.name)
    [] OTHER -> Ok([st EXCEPT !.trigs = RemoveIdx(@, j)])

CreatePolicy(d, st, op) ==
  WithTable(d, st, op.tbl, LAMBDA i, t :
    CASE d # "pg" -> Err(st, "syntax error")
      [] LIx(t, op.name) # 0 -> Err(st, "policy already exists: " \o op.name)
      [] op.cmd = "insert" /\ op.using # "" -> Err(st, "only WITH CHECK expression allowed for INSERT")
      [] op.cmd \in {"select", "delete"} /\ op.check # "" -> Err(st, "WITH CHECK cannot be applied to SELECT or DELETE")
      [] \E c \in DOMAIN op.ucols : ~HasCol(t, op.ucols[c]) -> Err(st, "column used in policy does not exist")
      [] OTHER -> Ok(PutTable(Bump(st), i, [t EXCEPT !.pols = Append(@, [n |-> op.name, perm |-> op.perm, cmd |-> op.cmd, roles |-> op.roles,
                                  using |-> op.using, check |-> op.check, ucols |-> op.ucols, id |-> st.nid])])))

DropPolicy(d, st, op) ==
  WithTable(d, st, op.tbl, LAMBDA i, t :
    LET p == LIx(t, op.name) IN
    CASE p = 0 /\ op.ie -> Ok(st)
      [] p = 0 -> Err(st, "unknown policy " \o op.name)
      [] OTHER -> Ok(PutTable(st, i, [t EXCEPT !.pols = RemoveIdx(@, p)])))

Step(d, st, op) ==
  CASE op.op = "createTable" -> CreateTable(d, st, op)
    [] op.op = "dropTable" -> DropTable(d, st, op)
    [] op.op = "addColumn" -> AddColumn(d, st, op)
    [] op.op = "changeColumn" -> IF d = "mysql" THEN ChangeColumn(d, st, op) ELSE Err(st, "syntax error: CHANGE COLUMN")
    [] op.op = "dropColumn" -> DropColumn(d, st, op)
    [] op.op = "addKey" -> AddKey(d, st, op)
    [] op.op = "dropPrimary" -> IF d = "mysql" THEN DropPrimary(d, st, op) ELSE Err(st, "syntax error: DROP PRIMARY KEY")
    [] op.op = "dropIndex" -> DropIndex(d, st, op)
    [] op.op = "dropConstraint" -> IF d = "sqlite" THEN Err(st, "syntax error: DROP CONSTRAINT") ELSE DropConstraint(d, st, op)
    [] op.op = "addFk" -> AddFk(d, st, op)
    [] op.op = "dropFk" -> DropFk(d, st, op)
    [] op.op = "addCheck" -> IF d = "sqlite" THEN Err(st, "syntax error: ADD CONSTRAINT") ELSE AddCheck(d, st, op)
    [] op.op = "alterType" -> AlterType(d, st, op)
    [] op.op = "setNotNull" -> SetNotNull(d, st, op)
    [] op.op = "dropNotNull" -> DropNotNull(d, st, op)
    [] op.op = "setDefault" -> SetDefault(d, st, op)
    [] op.op = "dropDefault" -> DropDefault(d, st, op)
    [] op.op = "addIdentity" -> AddIdentity(d, st, op)
    [] op.op = "dropIdentity" -> DropIdentity(d, st, op)
    [] op.op = "setIdentity" -> SetIdentity(d, st, op)
    [] op.op = "addDefault" -> AddDefault(d, st, op)
    [] op.op = "alterColumn" -> AlterColumnMs(d, st, op)
    [] op.op = "createView" -> CreateView(d, st, op)
    [] op.op = "dropView" -> DropView(d, st, op)
    [] op.op = "createTrigger" -> CreateTrigger(d, st, op)
    [] op.op = "dropTrigger" -> DropTrigger(d, st, op)
    [] op.op = "createPolicy" -> CreatePolicy(d, st, op)
    [] op.op = "dropPolicy" -> DropPolicy(d, st, op)
    [] op.op = "noop" -> Ok(st)
    [] op.op = "bad" -> Err(st, "not valid SQL: " \o op.why)
    [] OTHER -> Err(st, "unexpected statement: " \o op.op)

\* one statement: all of its operations or none
Exec(d, st, ops) ==
  LET r == FoldLeft(LAMBDA acc, op : IF acc.ok THEN Step(d, acc.st, op) ELSE acc, Ok(st), ops)
  IN IF r.ok THEN r ELSE [r EXCEPT !.st = st]

\* a file: statements in order; stops at the first rejected one
RECURSIVE ExecFileFrom(_, _, _, _)
ExecFileFrom(d, st, file, k) ==
  IF k > Len(file) THEN [ok |-> TRUE, why |-> "", st |-> st, at |-> 0]
  ELSE LET r == Exec(d, st, file[k]) IN
       IF r.ok THEN ExecFileFrom(d, r.st, file, k + 1) ELSE [ok |-> FALSE, why |-> r.why, st |-> st, at |-> k]
ExecFile(d, st, file) == ExecFileFrom(d, st, file, 1)

\* a file with its statements in any order that works: those rejected are tried again
ExecAny(d, st, file) ==
  LET Pass(acc) == FoldLeft(LAMBDA a, k : IF k \in a.todo THEN LET r == Exec(d, a.st, file[k]) IN IF r.ok THEN [a EXCEPT !.st = r.st, !.todo = @ \ {k}] ELSE [a EXCEPT !.why = r.why] ELSE a,
                            acc, [k \in DOMAIN file |-> k])
      r == FoldLeft(LAMBDA acc, k : IF acc.todo = {} THEN acc ELSE Pass(acc), [st |-> st, todo |-> DOMAIN file, why |-> ""], [k \in DOMAIN file |-> k])
  IN [ok |-> r.todo = {}, why |-> r.why, st |-> r.st]

\* what may stand in a desired file: declarations that together make a schema
DeclOps == {"createTable", "addKey", "addFk", "createView", "createTrigger", "createPolicy"}
Declaration(ops) == ops # << >> /\ \A i \in DOMAIN ops : ops[i].op \in DeclOps
Refusable(d, file) == (\E k \in DOMAIN file : ~Declaration(file[k])) \/ ~ExecFile(d, EmptyDB, file).ok

Destructive(op) == op.op \in {"dropTable", "dropColumn", "dropPrimary", "dropIndex", "dropConstraint", "dropFk", "dropView",
                              "dropTrigger", "dropPolicy", "dropNotNull_", "other"}
=============================================================================
