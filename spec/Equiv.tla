-------------------------------- MODULE Equiv --------------------------------
(* When does a database state A realise the declared schema D: differences,  *)
(* as readable strings, in three areas (C01 tables and columns, C02 keys and *)
(* foreign keys, C03 views, triggers, policies and checks); and which        *)
(* objects must keep their identity between two states (C06).                *)
EXTENDS Engine

TName(t) == IF t.s \in {"", "public", "dbo"} THEN t.n ELSE t.s \o "." \o t.n
KeysOf(S) == {[s |-> S[i].s, n |-> S[i].n] : i \in DOMAIN S}
At(S, r) == S[IndexWhere(S, LAMBDA x : x.s = r.s /\ x.n = r.n)]

If(b, s) == IF b THEN {s} ELSE {}

----------------------------------------------------------------------------
(* Columns.                                                                 *)

\* MySQL: the character set of a collation, the default collation of a set
CharsetOf(k) ==
  CASE k \in {"latin1_swedish_ci", "latin1_bin", "latin1_general_ci"} -> "latin1"
    [] k \in {"utf8mb4_general_ci", "utf8mb4_bin", "utf8mb4_unicode_ci"} -> "utf8mb4"
    [] k \in {"utf8_general_ci", "utf8_bin", "utf8_unicode_ci"} -> "utf8"
    [] k \in {"ascii_general_ci", "ascii_bin"} -> "ascii"
    [] OTHER -> k
DefCollate(cs) ==
  CASE cs = "latin1" -> "latin1_swedish_ci" [] cs = "utf8mb4" -> "utf8mb4_general_ci" [] cs = "utf8" -> "utf8_general_ci"
    [] cs = "ascii" -> "ascii_general_ci" [] OTHER -> cs
TabCharset(t) == IF t.charset # "" THEN t.charset ELSE IF t.collate # "" THEN CharsetOf(t.collate) ELSE "latin1"
TabCollate(t) == IF t.collate # "" THEN t.collate ELSE DefCollate(TabCharset(t))
EffCharset(d, t, c) == IF d # "mysql" \/ c.charset # "" THEN c.charset ELSE IF c.collate # "" THEN CharsetOf(c.collate) ELSE TabCharset(t)
EffCollate(d, t, c) == IF d # "mysql" \/ c.collate # "" THEN c.collate ELSE IF c.charset # "" THEN DefCollate(c.charset) ELSE TabCollate(t)

ColDiff(d, ta, t, p, a, c) ==
  If(a.base # c.base \/ a.arr # c.arr, p \o "type " \o a.base \o " instead of " \o c.base)
  \cup If(a.base = c.base /\ a.args # c.args, p \o "length " \o ToString(a.args) \o " instead of " \o ToString(c.args))
  \cup If(a.null # c.null, p \o (IF a.null THEN "is nullable" ELSE "is NOT NULL"))
  \cup If(a.def # c.def, p \o "default " \o ToString(a.def) \o " instead of " \o ToString(c.def))
  \cup If(a.auto # c.auto, p \o "AUTO_INCREMENT " \o ToString(a.auto))
  \cup If(a.onupd # c.onupd, p \o "ON UPDATE '" \o a.onupd \o "' instead of '" \o c.onupd \o "'")
  \cup If(c.charset # "" /\ EffCharset(d, ta, a) # c.charset, p \o "character set '" \o EffCharset(d, ta, a) \o "' instead of '" \o c.charset \o "'")
  \cup If(c.collate # "" /\ EffCollate(d, ta, a) # c.collate, p \o "collation '" \o EffCollate(d, ta, a) \o "' instead of '" \o c.collate \o "'")
  \cup If(a.ident # c.ident, p \o "identity " \o ToString(a.ident) \o " instead of " \o ToString(c.ident))
  \cup If(a.gen # c.gen, p \o "generation expression '" \o a.gen \o "'")

ColAt(t, n) == t.cols[CIx(t, n)]

TabDiff(d, a, t) ==
  LET A == ColNamesOf(a) D == ColNamesOf(t) IN
  {"column " \o TName(t) \o "." \o n \o " is missing" : n \in D \ A}
  \cup {"column " \o TName(t) \o "." \o n \o " is not declared" : n \in A \ D}
  \cup UNION {ColDiff(d, a, t, "column " \o TName(t) \o "." \o n \o ": ", ColAt(a, n), ColAt(t, n)) : n \in A \cap D}

Order(t, S) == LET f == SelectSeq(t.cols, LAMBDA c : c.n \in S) IN [i \in DOMAIN f |-> f[i].n]

\* MySQL: every column is in its declared position (a move that the tool is known to miss is k:column-moved, Domain)
OrderDiff(d, a, t) ==
  IF d = "mysql" /\ ColNamesOf(a) = ColNamesOf(t) /\ Order(a, ColNamesOf(t)) # Order(t, ColNamesOf(t))
  THEN {"columns of " \o TName(t) \o " are in order " \o ToString(Order(a, ColNamesOf(t))) \o " instead of " \o ToString(Order(t, ColNamesOf(t)))}
  ELSE {}

Diff1(d, st0, A, D) ==
  LET TA == KeysOf(A.tables) TD == KeysOf(D.tables) IN
  {"table " \o TName(r) \o " is missing" : r \in TD \ TA}
  \cup {"table " \o TName(r) \o " is not declared" : r \in TA \ TD}
  \cup UNION {TabDiff(d, At(A.tables, r), At(D.tables, r)) \cup OrderDiff(d, At(A.tables, r), At(D.tables, r)) : r \in TA \cap TD}

----------------------------------------------------------------------------
(* Keys and foreign keys.                                                   *)

OptDefault(k) == CASE k \in {"pad_index", "ignore_dup_key", "statistics_norecompute", "statistics_incremental"} -> "off"
                   [] k = "fillfactor" -> "0"
                   [] k \in {"allow_row_locks", "allow_page_locks"} -> "on"
                   [] OTHER -> ""
OptVal(k, n) == LET i == IndexWhere(k.opts, LAMBDA o : o.k = n) IN IF i = 0 THEN OptDefault(n) ELSE k.opts[i].v

\* key a realises declaration k
KeyMatch(d, a, k) ==
  /\ a.kind = k.kind
  /\ k.auto \/ a.name = k.name \/ k.kind = "primary"
  /\ a.cols = k.cols
  /\ a.where = k.where
  /\ a.incl = k.incl
  /\ d = "mssql" => a.clus = k.clus
  /\ \A i \in DOMAIN k.opts : OptVal(a, k.opts[i].k) = k.opts[i].v

NoAct(d, x) == IF x = "" \/ (d \in {"mysql", "mssql"} /\ x = "restrict") THEN "no action" ELSE x

FkMatch(d, a, f) ==
  /\ f.auto \/ a.name = f.name
  /\ a.cols = f.cols /\ a.ref = f.ref /\ a.rcols = f.rcols
  /\ NoAct(d, a.del) = NoAct(d, f.del) /\ NoAct(d, a.upd) = NoAct(d, f.upd)
  /\ a.nfr = f.nfr

KeyStr(t, k) == k.kind \o " key " \o k.name \o " on " \o TName(t) \o ToString(KeyColNames(k))
FkStr(t, f) == "foreign key " \o f.name \o " on " \o TName(t) \o ToString(f.cols) \o " -> " \o f.ref.n \o ToString(f.rcols) \o " delete '" \o f.del \o "' update '" \o f.upd \o "'"

TabDiff2(d, a, t) ==
  {KeyStr(t, t.keys[i]) \o " is missing" : i \in {j \in DOMAIN t.keys : ~t.keys[j].implicit /\ ~\E x \in DOMAIN a.keys : KeyMatch(d, a.keys[x], t.keys[j])}}
  \cup {KeyStr(a, a.keys[i]) \o " is not declared" : i \in {j \in DOMAIN a.keys : ~a.keys[j].implicit /\ ~\E x \in DOMAIN t.keys : KeyMatch(d, a.keys[j], t.keys[x])}}
  \cup {FkStr(t, t.fks[i]) \o " is missing" : i \in {j \in DOMAIN t.fks : ~\E x \in DOMAIN a.fks : FkMatch(d, a.fks[x], t.fks[j])}}
  \cup {FkStr(a, a.fks[i]) \o " is not declared" : i \in {j \in DOMAIN a.fks : ~\E x \in DOMAIN t.fks : FkMatch(d, a.fks[j], t.fks[x])}}
  \cup If(\E i, j \in DOMAIN a.keys : i # j /\ ~a.keys[i].implicit /\ ~a.keys[j].implicit /\ [a.keys[i] EXCEPT !.id = 0, !.name = ""] = [a.keys[j] EXCEPT !.id = 0, !.name = ""]
            /\ ~(\E k, l \in DOMAIN t.keys : k # l /\ KeyMatch(d, a.keys[i], t.keys[k]) /\ KeyMatch(d, a.keys[j], t.keys[l])),
          "duplicate key on " \o TName(t))

Diff2(d, A, D) ==
  LET TA == KeysOf(A.tables) TD == KeysOf(D.tables) IN
  UNION {TabDiff2(d, At(A.tables, r), At(D.tables, r)) : r \in TA \cap TD}

----------------------------------------------------------------------------
(* Views, triggers, policies and checks.                                    *)

ChkSet(t) == {[e |-> t.checks[i].expr, ni |-> t.checks[i].noinh, nfr |-> t.checks[i].nfr] : i \in DOMAIN t.checks}
PolSet(t) == {[n |-> t.pols[i].n, p |-> t.pols[i].perm, c |-> t.pols[i].cmd, r |-> t.pols[i].roles, u |-> t.pols[i].using, k |-> t.pols[i].check] : i \in DOMAIN t.pols}

TabDiff3(d, a, t) ==
  {"check on " \o TName(t) \o " is missing: " \o ToString(c) : c \in ChkSet(t) \ ChkSet(a)}
  \cup {"check on " \o TName(t) \o " is not declared: " \o ToString(c) : c \in ChkSet(a) \ ChkSet(t)}
  \cup {"policy on " \o TName(t) \o " is missing: " \o ToString(c) : c \in PolSet(t) \ PolSet(a)}
  \cup {"policy on " \o TName(t) \o " is not declared: " \o ToString(c) : c \in PolSet(a) \ PolSet(t)}

TrigMatch(a, g) == a.t = g.t /\ a.time = g.time /\ a.event = g.event /\ a.body = g.body

Diff3(d, A, D) ==
  LET TA == KeysOf(A.tables) TD == KeysOf(D.tables) VA == KeysOf(A.views) VD == KeysOf(D.views) IN
  UNION {TabDiff3(d, At(A.tables, r), At(D.tables, r)) : r \in TA \cap TD}
  \cup {"view " \o TName(r) \o " is missing" : r \in VD \ VA}
  \cup {"view " \o TName(r) \o " is not declared" : r \in VA \ VD}
  \cup {"view " \o TName(r) \o " is " \o At(A.views, r).def \o " instead of " \o At(D.views, r).def
          : r \in {x \in VA \cap VD : At(A.views, x).def # At(D.views, x).def \/ At(A.views, x).cols # At(D.views, x).cols}}
  \cup {"trigger " \o D.trigs[i].n \o " is missing or different"
          : i \in {j \in DOMAIN D.trigs : GIx(A, D.trigs[j].n) = 0 \/ ~TrigMatch(A.trigs[GIx(A, D.trigs[j].n)], D.trigs[j])}}

Diff(d, st0, A, D) == Diff1(d, st0, A, D) \cup Diff2(d, A, D) \cup Diff3(d, A, D)

\* the same schema, both ways, triggers included
Same(d, A, B) == Diff(d, A, A, B) = {} /\ Diff(d, B, B, A) = {}

----------------------------------------------------------------------------
(* C06: what must survive from S to P when D is declared.                   *)

IdentChanged(d, s, t, n) == d = "mssql" /\ (ColAt(s, n).ident.has \/ ColAt(t, n).ident.has) /\ ColAt(s, n).ident # ColAt(t, n).ident

LostCols(d, s, t, p) ==
  {n \in ColNamesOf(s) \cap ColNamesOf(t) : HasCol(p, n) /\ ColAt(p, n).id # ColAt(s, n).id /\ ~IdentChanged(d, s, t, n)}

KeyTouchedByIdent(d, s, t, k) == \E i \in DOMAIN k.cols : LET n == k.cols[i].c IN HasCol(s, n) /\ HasCol(t, n) /\ IdentChanged(d, s, t, n)
FkTouched(d, S, s, t, f) == \E i \in DOMAIN f.cols : HasCol(s, f.cols[i]) /\ HasCol(t, f.cols[i]) /\ IdentChanged(d, s, t, f.cols[i])

\* a key of s whose columns' definitions are unchanged and that matches its declaration
KeptKeys(d, s, t) ==
  {i \in DOMAIN s.keys : /\ ~s.keys[i].implicit
                         /\ \E j \in DOMAIN t.keys : KeyMatch(d, s.keys[i], t.keys[j]) /\ KeyMatch(d, t.keys[j], s.keys[i])
                         /\ ~KeyTouchedByIdent(d, s, t, s.keys[i])}
KeptFks(d, S, s, t) ==
  {i \in DOMAIN s.fks : (\E j \in DOMAIN t.fks : FkMatch(d, s.fks[i], t.fks[j])) /\ ~FkTouched(d, S, s, t, s.fks[i])}
KeptChecks(s, t) ==
  {i \in DOMAIN s.checks : \E j \in DOMAIN t.checks : s.checks[i].expr = t.checks[j].expr /\ s.checks[i].noinh = t.checks[j].noinh /\ s.checks[i].nfr = t.checks[j].nfr}

HasId(seq, id) == \E i \in DOMAIN seq : seq[i].id = id

SurvTab(d, S, s, t, p) ==
  LET w == TName(t) IN
  {"column " \o w \o "." \o n \o " was dropped and re-created" : n \in LostCols(d, s, t, p)}
  \cup {KeyStr(s, s.keys[i]) \o " was re-created" : i \in {j \in KeptKeys(d, s, t) : ~HasId(p.keys, s.keys[j].id)}}
  \cup {FkStr(s, s.fks[i]) \o " was re-created" : i \in {j \in KeptFks(d, S, s, t) : ~HasId(p.fks, s.fks[j].id)}}
  \cup {"check " \o s.checks[i].name \o " on " \o w \o " was re-created" : i \in {j \in KeptChecks(s, t) : ~HasId(p.checks, s.checks[j].id)}}
  \cup {"policy " \o s.pols[i].n \o " on " \o w \o " was re-created" :
          i \in {j \in DOMAIN s.pols : (\E k \in DOMAIN t.pols : [s.pols[j] EXCEPT !.id = 0, !.ucols = << >>] = [t.pols[k] EXCEPT !.id = 0, !.ucols = << >>]) /\ ~HasId(p.pols, s.pols[j].id)}}

Survive(d, S, D, P) ==
  LET T == KeysOf(S.tables) \cap KeysOf(D.tables) IN
  {"table " \o TName(r) \o " was dropped" : r \in T \ KeysOf(P.tables)}
  \cup {"table " \o TName(r) \o " was dropped and re-created" : r \in {x \in T \cap KeysOf(P.tables) : At(P.tables, x).id # At(S.tables, x).id}}
  \cup UNION {SurvTab(d, S, At(S.tables, r), At(D.tables, r), At(P.tables, r)) : r \in T \cap KeysOf(P.tables)}
  \cup {"column " \o TName(x[1]) \o "." \o x[2] \o " was dropped" :
          x \in {y \in UNION {{<<r, n>> : n \in ColNamesOf(At(S.tables, r)) \cap ColNamesOf(At(D.tables, r))} : r \in T \cap KeysOf(P.tables)} :
                 ~HasCol(At(P.tables, y[1]), y[2])}}
  \cup {"view " \o TName(r) \o " was re-created" :
          r \in {x \in KeysOf(S.views) \cap KeysOf(D.views) : At(S.views, x).def = At(D.views, x).def /\ At(S.views, x).cols = At(D.views, x).cols
                     /\ (VIx(P, x) = 0 \/ At(P.views, x).id # At(S.views, x).id)}}
  \cup {"trigger " \o S.trigs[i].n \o " was re-created" :
          i \in {j \in DOMAIN S.trigs : GIx(D, S.trigs[j].n) # 0 /\ TrigMatch(S.trigs[j], D.trigs[GIx(D, S.trigs[j].n)]) /\ ~HasId(P.trigs, S.trigs[j].id)}}

\* C08: objects of S that are gone from P
Gone(S, P) ==
  LET T == KeysOf(S.tables) IN
  {"table " \o TName(r) : r \in T \ KeysOf(P.tables)}
  \cup UNION {LET s == At(S.tables, r) p == At(P.tables, r) w == TName(r) IN
       {"column " \o w \o "." \o n : n \in {m \in ColNamesOf(s) : ~HasId(p.cols, ColAt(s, m).id)}}
       \cup {KeyStr(s, s.keys[i]) : i \in {j \in DOMAIN s.keys : ~s.keys[j].implicit /\ ~HasId(p.keys, s.keys[j].id)}}
       \cup {FkStr(s, s.fks[i]) : i \in {j \in DOMAIN s.fks : ~HasId(p.fks, s.fks[j].id)}}
       \cup {"check " \o s.checks[i].name : i \in {j \in DOMAIN s.checks : ~HasId(p.checks, s.checks[j].id)}}
       \cup {"policy " \o s.pols[i].n : i \in {j \in DOMAIN s.pols : ~HasId(p.pols, s.pols[j].id)}}
       : r \in T \cap KeysOf(P.tables)}
  \cup {"view " \o TName(r) : r \in KeysOf(S.views) \ KeysOf(P.views)}
  \cup {"trigger " \o S.trigs[i].n : i \in {j \in DOMAIN S.trigs : ~HasId(P.trigs, S.trigs[j].id)}}
=============================================================================
