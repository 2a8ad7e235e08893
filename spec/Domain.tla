-------------------------------- MODULE Domain --------------------------------
(* Which transitions, from database schema S to declared schema D, the        *)
(* convergence properties speak about.  Out(d, S, D) is a set of reasons:     *)
(*   "u:..."  the change is not one of the kinds README.md documents as       *)
(*            supported for the database, or the database itself has no       *)
(*            statement for it;                                               *)
(*   "k:..."  a known defect: representative cases are listed, one by one, in *)
(*            known_findings.json, and are reported as KNOWN-FINDING; the     *)
(*            others of its kind are not judged.                              *)
(* The properties about failures, dropping, dry runs, output and isolation    *)
(* are judged for every transition.                                           *)
EXTENDS Equiv

Common(S, D) == KeysOf(S.tables) \cap KeysOf(D.tables)
ComCols(s, t) == ColNamesOf(s) \cap ColNamesOf(t)
PkCols(t) == IF PIx(t) = 0 THEN << >> ELSE KeyColNames(t.keys[PIx(t)])
HasPk(t) == PIx(t) # 0
SameKeyDef(a, b) == [a EXCEPT !.id = 0, !.auto = FALSE, !.implicit = FALSE] = [b EXCEPT !.id = 0, !.auto = FALSE, !.implicit = FALSE]

PkChanged(s, t) == HasPk(s) # HasPk(t) \/ PkCols(s) # PkCols(t)
\* columns that leave the primary key and become nullable
PkNullable(s, t) == \E n \in Range(PkCols(s)) \cap ColNamesOf(t) : ColAt(t, n).null
PkDisjoint(s, t) == HasPk(s) /\ HasPk(t) /\ PkCols(s) # << >> /\ PkCols(t) # << >> /\ PkCols(s)[1] \notin Range(PkCols(t)) 
\* the single-column primary key of t starts with another column than that of s
PkOther(s, t) == HasPk(s) /\ HasPk(t) /\ Len(PkCols(t)) = 1 /\ PkCols(s)[1] # PkCols(t)[1]

HasAuto(t) == \E i \in DOMAIN t.cols : t.cols[i].auto
ColChanged(a, c) == a.base # c.base \/ a.arr # c.arr \/ a.args # c.args \/ a.null # c.null
                    \/ a.charset # c.charset \/ a.collate # c.collate

\* a table that goes while a foreign key of S refers to it, from another table
DroppedReferenced(S, D) ==
  \E r \in KeysOf(S.tables) \ KeysOf(D.tables) : \E i \in DOMAIN S.tables : \E j \in DOMAIN S.tables[i].fks :
     S.tables[i].fks[j].ref = r /\ [s |-> S.tables[i].s, n |-> S.tables[i].n] # r

ZeroFillTypes == {"tinyint unsigned zerofill", "smallint unsigned zerofill", "mediumint unsigned zerofill", "int unsigned zerofill",
   "bigint unsigned zerofill", "decimal unsigned zerofill", "float unsigned zerofill", "double unsigned zerofill"}
ZeroFill(b) == b \in ZeroFillTypes

----------------------------------------------------------------------------
\* MySQL's columns have an order.  The tool moves a column only if it is further behind than the number of columns
\* that go explains; the order this leads to may not be the declared one.
PlanNames(t) == [i \in DOMAIN t.cols |-> t.cols[i].n]
Put(q, x, i, target) == IF i = 1 THEN <<x>> \o q ELSE InsertAfter(q, CHOOSE j \in DOMAIN q : q[j] = target[i - 1], x)
Reached(s, t) ==
  LET cur == PlanNames(s)
      goal == PlanNames(t)
      Pos(n) == CHOOSE j \in DOMAIN cur : cur[j] = n
      Walk(q, i) == IF goal[i] \notin Range(cur) THEN Put(q, goal[i], i, goal)
                     ELSE IF Pos(goal[i]) > i /\ Pos(goal[i]) - i > Len(cur) - Len(goal)
                          THEN Put(SelectSeq(q, LAMBDA x : x # goal[i]), goal[i], i, goal)
                          ELSE q
  IN SelectSeq(FoldLeft(Walk, cur, [i \in DOMAIN goal |-> i]), LAMBDA x : x \in Range(goal))

MyPair(S, D, s, t) ==
  If(Reached(s, t) # PlanNames(t), "k:column-moved")
  \cup If(PkNullable(s, t) /\ PkChanged(s, t), "k:pk-nullable")
  \cup If(PkOther(s, t) \/ PkDisjoint(s, t), "u:pk-column")
  \cup If(\E n \in ComCols(s, t) : ZeroFill(ColAt(s, n).base) # ZeroFill(ColAt(t, n).base), "k:zerofill")
  \cup If(\E i \in DOMAIN s.keys : \E j \in DOMAIN t.keys :
             /\ s.keys[i].name = t.keys[j].name /\ s.keys[i].kind # "primary" /\ t.keys[j].kind # "primary"
             /\ \/ (s.keys[i].kind = "fulltext") # (t.keys[j].kind = "fulltext")
                \/ (s.keys[i].kind = "spatial") # (t.keys[j].kind = "spatial")
                \/ KeyColNames(s.keys[i]) = KeyColNames(t.keys[j]) /\ [x \in DOMAIN s.keys[i].cols |-> s.keys[i].cols[x].len] # [x \in DOMAIN t.keys[j].cols |-> t.keys[j].cols[x].len],
          "k:index-kind")
  \cup If(s.checks # << >> \/ t.checks # << >>, "u:check")
  \* an index that serves a foreign key is replaced, or goes
  \cup If(\E f \in Range(s.fks) \cup Range(t.fks) :
             \E k \in Range(s.keys) : IsPrefixOf(f.cols, KeyColNames(k)) /\ k.kind # "primary"
                 \* a foreign key that goes, goes before the obsolete indexes
                 /\ ((\E f2 \in Range(t.fks) : f2.name = f.name) \/ (\E k2 \in Range(t.keys) : k2.name = k.name)
                     \* MySQL drops an implicit index when another one serves
                     \/ (k.implicit /\ \E k2 \in Range(t.keys) : IsPrefixOf(f.cols, KeyColNames(k2)) /\ ~\E k3 \in Range(s.keys) : k3.name = k2.name))
                 /\ ~\E k2 \in Range(t.keys) : k2.name = k.name /\ k2.implicit = k.implicit /\ KeyColNames(k2) = KeyColNames(k),
          "k:fk-index")
  \cup If(\E f \in Range(s.fks) : \E k \in Range(t.keys) : k.name = f.name /\ ~k.implicit /\ ~\E k2 \in Range(s.keys) : k2.name = k.name /\ ~k2.implicit, "k:fk-index")
  \cup If(s.charset # t.charset \/ s.collate # t.collate, "u:table-charset")

\* the tool looks for the check of a column among those that use the column
PgChecks(t) == \A c \in Range(t.checks) : c.cols = <<c.col>>

PgPair(S, D, s, t) ==
  If(\E c \in Range(s.checks) : /\ c.name # s.n \o "_" \o c.col \o "_check"
                                /\ c.col \in ComCols(s, t)
                                /\ ~\E c2 \in Range(t.checks) : c2.col = c.col /\ c2.expr = c.expr /\ c2.noinh = c.noinh, "k:check-name")
  \cup If(~PgChecks(s) \/ ~PgChecks(t), "k:check-columns") \cup
  If(\E n \in ComCols(s, t) : ~PGAutoCast(ColAt(s, n), ColAt(t, n)), "u:type-without-cast")
  \cup If(\E n \in ComCols(s, t) : LET a == ColAt(s, n) c == ColAt(t, n) IN
            a.base = c.base /\ a.args # c.args /\ (a.arr \/ a.base \notin {"character", "character varying", "bit", "bit varying"}), "k:precision")
  \cup If(\E n \in ComCols(s, t) : (ColAt(s, n).def.k = "serial") # (ColAt(t, n).def.k = "serial"), "k:serial")
  \cup If(\E n \in ComCols(s, t) : ColAt(s, n).def.k = "serial" /\ ColAt(s, n).base # ColAt(t, n).base, "k:serial")
  \cup If(\E n \in ComCols(s, t) : ColAt(s, n).ident.has /\ ColAt(t, n).ident.has /\ ColAt(s, n).ident.opts # ColAt(t, n).ident.opts, "k:identity-options")
  \cup If(\E n \in ComCols(s, t) : ColAt(s, n).ident.has /\ ~ColAt(t, n).ident.has /\ ColAt(t, n).null, "k:identity-nullable")
  \cup If(\E k \in Range(s.keys) : k.con /\ k.kind = "unique" /\ ~\E k2 \in Range(t.keys) : k2.con /\ k2.kind = "unique" /\ k2.name = k.name /\ k2.cols = k.cols, "k:unique-constraint")
  \* one can come with a new column
  \cup If(\E k \in Range(t.keys) : /\ k.con /\ k.kind = "unique" /\ ~(k.auto /\ Len(k.cols) = 1 /\ KeyColNames(k)[1] \notin ColNamesOf(s))
                                /\ ~\E k2 \in Range(s.keys) : k2.con /\ k2.kind = "unique" /\ k2.name = k.name /\ k2.cols = k.cols, "k:unique-constraint")
  \cup If(\E k \in Range(s.keys) : k.kind = "primary" /\ k.name # s.n \o "_pkey" /\ ~\E k2 \in Range(t.keys) : k2.kind = "primary" /\ k2.name = k.name /\ k2.cols = k.cols, "k:pk-name")
  \cup If(\E k \in Range(s.keys) : \E k2 \in Range(t.keys) : k.name = k2.name /\ OptVal(k, "using") # OptVal(k2, "using"), "k:index-method")
  \* a column does not get REFERENCES, and loses them if no other column refers to that table
  \cup If(\E f \in Range(t.fks) : f.auto /\ ~\E g \in Range(s.fks) : g.auto /\ g.cols = f.cols /\ g.ref = f.ref /\ g.rcols = f.rcols, "k:references")
  \cup If(\E f \in Range(s.fks) : /\ f.auto /\ ~\E g \in Range(t.fks) : g.auto /\ g.cols = f.cols /\ g.ref = f.ref /\ g.rcols = f.rcols
                                /\ \E g \in Range(t.fks) : g.auto /\ g.ref.n = f.ref.n, "k:references")
  \cup If(PkNullable(s, t) /\ PkChanged(s, t), "k:pk-nullable")
  \cup If(\E n \in ComCols(s, t) : LET a == ColAt(s, n) c == ColAt(t, n) IN
            (a.base # c.base \/ a.arr # c.arr \/ a.args # c.args)
            /\ (PGViewDeps("pg", S, s, n) # {} \/ \E p \in Range(s.pols) : PolUses(p, n)), "k:used-column-type")
  \cup If(PkOther(s, t) \/ PkDisjoint(s, t), "u:pk-column")

MsPair(S, D, s, t) ==
  If(\E n \in ComCols(s, t) : ColChanged(ColAt(s, n), ColAt(t, n)) /\ ~PkChanged(s, t), "u:column-changed")
  \cup If(\E n \in ComCols(s, t) : ColChanged([ColAt(s, n) EXCEPT !.null = FALSE], [ColAt(t, n) EXCEPT !.null = FALSE]), "u:column-changed")
  \cup If(\E n \in ComCols(s, t) : ColAt(s, n).null # ColAt(t, n).null, "u:column-changed")
  \cup If(\E n \in ComCols(s, t) : ColAt(s, n).ident # ColAt(t, n).ident, "k:identity")
  \cup If(HasPk(s) /\ HasPk(t) /\ PkCols(s) = PkCols(t) /\ s.keys[PIx(s)].clus # t.keys[PIx(t)].clus, "k:pk-clustered")
  \cup If(\E k \in Range(s.keys) : \E k2 \in Range(t.keys) : k.kind # "primary" /\ k.name = k2.name /\ k.clus # k2.clus, "k:index-clustered")
  \cup If(\E k \in Range(s.keys) : k.where # "" /\ \E k2 \in Range(t.keys) : k2.name = k.name, "k:filtered-index")
  \cup If(PkOther(s, t) \/ PkDisjoint(s, t), "u:pk-column")

LitePair(S, D, s, t) ==
  If(\E n \in ComCols(s, t) : LET a == ColAt(s, n) c == ColAt(t, n) IN
        [a EXCEPT !.id = 0, !.defname = "", !.defauto = TRUE, !.comment = ""] # [c EXCEPT !.id = 0, !.defname = "", !.defauto = TRUE, !.comment = ""], "u:column-changed")
  \cup If({[k EXCEPT !.id = 0] : k \in Range(s.keys)} # {[k EXCEPT !.id = 0] : k \in Range(t.keys)}, "u:keys")
  \cup If({[k EXCEPT !.id = 0] : k \in Range(s.fks)} # {[k EXCEPT !.id = 0] : k \in Range(t.fks)}, "u:foreign-keys")
  \cup If({[k EXCEPT !.id = 0] : k \in Range(s.checks)} # {[k EXCEPT !.id = 0] : k \in Range(t.checks)}, "u:checks")

PgView(S, D) ==
  If(\E r \in KeysOf(S.views) \cap KeysOf(D.views) : ~IsPrefixOf(At(S.views, r).cols, At(D.views, r).cols), "k:view-columns")
  \cup If(\E r \in KeysOf(S.views) \ KeysOf(D.views) : \E q \in KeysOf(S.views) \ KeysOf(D.views) : r \in ViewRefs("pg", At(S.views, q)), "k:view-on-view")

\* an obsolete view uses a table or column that goes, and is dropped after it: SQLite then
\* refuses to drop a column, of any table
ViewInTheWay(S, D) ==
  /\ \E r \in Common(S, D) : ColNamesOf(At(S.tables, r)) \ ColNamesOf(At(D.tables, r)) # {}
  /\ \E v \in Range(S.views) : ~(\E x \in Range(D.views) : x.s = v.s /\ x.n = v.n)
     /\ \E r \in ViewRefs("sqlite", v) : r \notin KeysOf(D.tables)
          \/ (r \in KeysOf(S.tables) /\ (Range(v.rcols) \cap ColNamesOf(At(S.tables, r))) \ ColNamesOf(At(D.tables, r)) # {})

\* foreign keys of the same name on two tables of a schema
FkNamesShared(S) ==
  \E i, j \in DOMAIN S.tables : i # j /\ S.tables[i].s = S.tables[j].s
    /\ {f.name : f \in Range(S.tables[i].fks)} \cap {f.name : f \in Range(S.tables[j].fks)} # {}

Out(d, S, D) ==
  UNION {LET s == At(S.tables, r) t == At(D.tables, r) IN
         CASE d = "mysql" -> MyPair(S, D, s, t) [] d = "pg" -> PgPair(S, D, s, t)
           [] d = "mssql" -> MsPair(S, D, s, t) [] OTHER -> LitePair(S, D, s, t) : r \in Common(S, D)}
  \cup If(d \in {"mysql", "pg", "mssql"} /\ DroppedReferenced(S, D), "k:drop-referenced")
  \cup (IF d = "pg" THEN PgView(S, D) \cup If(FkNamesShared(S) \/ FkNamesShared(D), "k:fk-names") ELSE {})
  \cup If(d = "sqlite" /\ ViewInTheWay(S, D), "k:view-dropped-late")
  \cup If(d = "sqlite" /\ (S.trigs # << >> \/ D.trigs # << >>), "u:trigger")
  \cup If(d = "sqlite" /\ \E X \in {S, D} : \E i \in DOMAIN X.tables : \E k \in Range(X.tables[i].keys) : ~k.auto /\ k.kind # "primary", "u:index")

----------------------------------------------------------------------------
\* a foreign key that was added later refers to a table made after its own
LateRef(S) == If(\E i, j \in DOMAIN S.tables : i < j /\ \E f \in Range(S.tables[i].fks) : f.ref = [s |-> S.tables[j].s, n |-> S.tables[j].n], "k:export-order")
(* Schemas whose export is known to be wrong (C10).  That MySQL tables are   *)
(* exported in the order of their names, whatever they reference, is         *)
(* allowed for in Check.tla, but makes the text unusable on an empty server. *)
ExportOut(d, S) ==
  IF d = "pg" THEN
    If(FkNamesShared(S), "k:fk-names") \cup UNION {LET t == S.tables[i] IN
      If(\E c \in Range(t.cols) : c.args # << >> /\ (c.arr \/ c.base \notin {"character", "character varying", "bit", "bit varying"}), "k:precision")
      \cup If(\E c \in Range(t.cols) : c.ident.has /\ c.ident.opts # << >>, "k:identity-options")
      \cup If(\E k \in Range(t.keys) : k.kind = "primary" /\ k.name # t.n \o "_pkey", "k:pk-name")
      \cup If(~PgChecks(t), "k:check-columns")
      \cup If(\E k \in Range(t.keys) : k.con /\ k.kind = "unique", "k:unique-export") : i \in DOMAIN S.tables}
    \cup LateRef(S)
    \* a view that was replaced by one that uses a view made later
    \cup If(\E i, j \in DOMAIN S.views : i < j /\ [s |-> S.views[j].s, n |-> S.views[j].n] \in ViewRefs("pg", S.views[i]), "k:export-order")
  ELSE IF d = "mysql" THEN
    UNION {LET t == S.tables[i] IN
      If(\E f \in Range(t.fks) : \E j \in DOMAIN S.tables : S.tables[j].n = f.ref.n /\ S.tables[j].id # t.id, "k:export-order") : i \in DOMAIN S.tables}
  ELSE IF d = "sqlite" THEN
    UNION {If(\E k \in Range(S.tables[i].keys) : ~k.auto /\ k.kind # "primary", "u:index") : i \in DOMAIN S.tables}
    \cup If(S.trigs # << >>, "u:trigger")
  ELSE LateRef(S) \cup UNION {If(\E k \in Range(S.tables[i].keys) : k.where # "", "k:filtered-index") : i \in DOMAIN S.tables}
=============================================================================
