-------------------------------- MODULE Model --------------------------------
(* The tool itself as a state machine, against an environment that may fail  *)
(* at every step.  One task is one invocation [schema, desired file, plan,   *)
(* mode, --skip-drop, valid]; the plan is one that the real tool produced.   *)
(*                                                                           *)
(* bug = "none" is the algorithm the tool has to follow; every other value   *)
(* is one way to get it wrong.  The actions are judged by the same operators *)
(* (Broken_X, Final) that judge recorded executions of the real binaries, so *)
(* checking this module shows that                                           *)
(*   - the correct algorithm breaks nothing, whatever the environment does   *)
(*     (CorrectIsQuiet), always ends (Terminates) and reports truthfully     *)
(*     (Truthful, Atomic);                                                   *)
(*   - the operators notice every bug listed here whose observable behaviour *)
(*     differs from the correct one's (Noticed; checked by the harness over  *)
(*     all printed behaviours).                                              *)
(* The behaviours of bug = "none" are the fault schedules that are replayed  *)
(* against the real binaries.                                                *)
EXTENDS Check

VARIABLES p   \* the tool: pc, next statement, reads done, statements sent, faults so far, bug, exit code, transaction

Bugs == {"none",
         "login-ignored", "read-ignored", "read-exit0", "partial-export",
         "invalid-applied", "invalid-exit0", "silent",
         "dry-executes", "export-writes", "dry-shows-all", "dry-omits",
         "skip-executes", "skip-everything", "skip-nothing-said",
         "print-after", "print-omitted", "says-nothing", "nothing-unsaid",
         "continue", "no-rollback", "commit-after-error", "exec-exit0", "commit-exit0", "begin-exit0",
         "no-transaction", "no-commit", "commit-each",
         "last-omitted", "first-omitted", "twice", "reversed", "exit1"}

Conf(t) == C(t)
Skips(t, it) == t.skip /\ (AnyDestructive(it.ops) \/ Weakening(it.ops))

\* the plan as the tool with this bug sees it
PlanIn(t, bug) ==
  LET q == t.plan IN
  CASE bug = "last-omitted"  -> SubSeq(q, 1, Len(q) - 1)
    [] bug = "first-omitted" -> SubSeq(q, 2, Len(q))
    [] bug = "twice"         -> IF q = << >> THEN q ELSE Append(q, q[Len(q)])
    [] bug = "reversed"      -> Reverse(q)
    [] OTHER -> q

MInit == /\ r \in 1..Len(Tasks)
         /\ l = 1
         /\ s = InitState(Tasks[r].st)
         /\ viol = {}
         /\ p \in {[pc |-> "login", k |-> 1, n |-> 0, sent |-> 0, fl |-> << >>, bug |-> b, code |-> 0, said |-> FALSE, exported |-> FALSE] : b \in ToSet(Tasks[r].bugs) \cap Bugs}

T == Tasks[r]
B == p.bug
\* outcomes of a step of the environment
Out1(kinds) == {"ok"} \cup (IF Len(p.fl) < T.faults /\ s.alive THEN kinds ELSE {})
Fl(at, n, o) == IF o = "ok" THEN p.fl ELSE Append(p.fl, [at |-> at, n |-> n, kind |-> o])

\* take the action with record e
Act(s1, v) == s' = s1 /\ viol' = viol \cup v
Go(q) == p' = q /\ l' = l + 1 /\ r' = r
Fail(q, what) == [q EXCEPT !.pc = "end", !.code = IF B = what THEN 0 ELSE 1, !.said = B # "silent"]

MLogin ==
  /\ p.pc = "login"
  /\ \E o \in Out1({"error", "drop"}) :
       LET e == [ok |-> o = "ok"]
           q == [p EXCEPT !.fl = Fl("login", 0, o)]
       IN /\ Act(LoginAfter(Conf(T), s, e), LoginBroken(Conf(T), s, e))
          /\ Go(IF o = "ok" \/ B = "login-ignored" THEN [q EXCEPT !.pc = "read"] ELSE Fail(q, "-"))

MRead ==
  /\ p.pc = "read"
  /\ IF p.n >= T.reads THEN s' = s /\ viol' = viol /\ Go([p EXCEPT !.pc = "gen"])
     ELSE \E o \in Out1({"error", "drop", "trunc", "truncerr"}) :
       LET e == [ok |-> o = "ok"]
           q == [p EXCEPT !.fl = Fl("read", p.n, o), !.n = @ + 1]
       IN /\ Act(ReadAfter(Conf(T), s, e), ReadBroken(Conf(T), s, e))
          /\ Go(IF o = "ok" \/ B = "read-ignored" \/ (B = "partial-export" /\ T.mode = "export") THEN q ELSE Fail(q, "read-exit0"))

MGen ==
  /\ p.pc = "gen"
  /\ s' = s /\ viol' = viol
  /\ Go(IF T.mode = "export" THEN IF B = "export-writes" /\ T.plan # << >> THEN [p EXCEPT !.pc = "begin"]
                                  ELSE [p EXCEPT !.pc = "end", !.exported = TRUE, !.code = IF B = "partial-export" /\ s.err # "" THEN 1 ELSE 0, !.said = TRUE]
        ELSE IF ~T.valid /\ B # "invalid-applied" THEN Fail(p, "invalid-exit0")
        ELSE IF PlanIn(T, B) = << >> THEN [p EXCEPT !.pc = "nothing"]
        ELSE IF T.mode = "dry" THEN [p EXCEPT !.pc = IF B = "dry-executes" THEN "begin" ELSE "dry"]
        ELSE [p EXCEPT !.pc = "begin"])

Item(w, it) == [w |-> w, txt |-> it.txt, kind |-> it.kind, ops |-> it.ops]

MNothing ==
  /\ p.pc = "nothing"
  /\ LET it == [w |-> "nothing", txt |-> "", kind |-> "", ops |-> << >>]
     IN IF B = "nothing-unsaid" THEN s' = s /\ viol' = viol ELSE Act(PrintAfter(Conf(T), s, it), PrintBroken(Conf(T), s, it))
  /\ Go([p EXCEPT !.pc = "end", !.code = IF B = "exit1" THEN 1 ELSE 0])

MDry ==
  /\ p.pc = "dry"
  /\ LET q == PlanIn(T, B)
         items == [i \in DOMAIN q |-> Item(IF B # "dry-shows-all" /\ Skips(T, q[i]) THEN "skip" ELSE "stmt", q[i])]
         f == PrintFold(Conf(T), s, IF B = "dry-omits" THEN SubSeq(items, 1, Len(items) - 1) ELSE items)
     IN Act(f.s, f.v)
  /\ Go([p EXCEPT !.pc = "end", !.code = IF B = "exit1" THEN 1 ELSE 0])

MBegin ==
  /\ p.pc = "begin"
  /\ IF B = "no-transaction" THEN s' = s /\ viol' = viol /\ Go([p EXCEPT !.pc = "step"])
     ELSE \E o \in Out1({"error", "drop"}) :
       LET e == [ok |-> o = "ok"]
           q == [p EXCEPT !.fl = Fl("begin", 0, o)]
       IN /\ Act(BeginAfter(Conf(T), s, e), BeginBroken(Conf(T), s, e))
          /\ \/ Go(IF o = "ok" THEN [q EXCEPT !.pc = "step"] ELSE Fail(q, "begin-exit0"))
             \/ o = "drop" /\ Go(q)      \* on another connection

\* print and execute the next statement
Stmt == PlanIn(T, B)[p.k]
Printed(s0, w) == [s |-> PrintAfter(Conf(T), s0, Item(w, Stmt)), v |-> PrintBroken(Conf(T), s0, Item(w, Stmt))]
ExecEv(o) == [k |-> "exec", ok |-> o \in {"ok", "dropafter"}, inj |-> o # "ok", tx |-> s.tx, txt |-> Stmt.txt, kind |-> Stmt.kind, ops |-> Stmt.ops]

MStep ==
  /\ p.pc = "step"
  /\ IF p.k > Len(PlanIn(T, B)) THEN s' = s /\ viol' = viol /\ Go([p EXCEPT !.pc = IF B \in {"no-commit", "no-transaction"} THEN "end" ELSE "commit"])
     ELSE IF (Skips(T, Stmt) /\ B # "skip-executes") \/ (T.skip /\ B = "skip-everything")
     THEN /\ IF B = "skip-nothing-said" THEN s' = s /\ viol' = viol ELSE LET f == Printed(s, "skip") IN Act(f.s, f.v)
          /\ Go([p EXCEPT !.k = @ + 1])
     ELSE \E o \in Out1({"error", "drop", "dropafter"}) :
       LET says == B \notin {"print-omitted", "print-after"}
           f == IF says THEN Printed(s, "stmt") ELSE [s |-> s, v |-> {}]
           e == ExecEv(o)
           lost == o \in {"drop", "dropafter"}
           s1 == ExecAfter(Conf(T), f.s, e)
           v1 == ExecBroken(Conf(T), f.s, e)
           s2 == IF lost THEN LostAfter(Conf(T), s1, e) ELSE s1
           g == IF B = "print-after" THEN Printed(s2, "stmt") ELSE [s |-> s2, v |-> {}]
           q == [p EXCEPT !.fl = Fl("exec", p.sent, o), !.sent = @ + 1, !.k = @ + 1]
           \* a statement the database rejects by itself
           bad == o # "ok" \/ ~ExecResult(Conf(T), f.s, e).ok
       IN /\ Act(g.s, f.v \cup v1 \cup g.v)
          /\ Go(IF ~bad THEN IF B = "commit-each" /\ p.k < Len(PlanIn(T, B)) THEN [q EXCEPT !.pc = "commit"] ELSE q
                ELSE IF B = "continue" /\ ~lost THEN q
                ELSE IF lost THEN Fail(q, "exec-exit0")
                ELSE IF B = "no-rollback" THEN Fail(q, "-")
                ELSE IF B = "commit-after-error" THEN [q EXCEPT !.pc = "commit"]
                ELSE [q EXCEPT !.pc = "rollback"])

MRollback ==
  /\ p.pc = "rollback"
  /\ \E o \in Out1({"error", "drop"}) :
       LET e == [ok |-> o = "ok"]
           q == [p EXCEPT !.fl = Fl("rollback", 0, o)]
           s1 == RollbackAfter(Conf(T), s, e)
       IN /\ Act(IF o = "drop" THEN LostAfter(Conf(T), s1, e) ELSE s1, RollbackBroken(Conf(T), s, e))
          /\ Go(Fail(q, "exec-exit0"))

MCommit ==
  /\ p.pc = "commit"
  /\ \E o \in Out1({"error", "drop", "dropafter"}) :
       LET e == [ok |-> o = "ok", eff |-> o \in {"ok", "dropafter"}]
           q == [p EXCEPT !.fl = Fl("commit", 0, o)]
       IN /\ Act(CommitAfter(Conf(T), s, e), CommitBroken(Conf(T), s, e))
          /\ Go(IF o = "ok" THEN IF B = "commit-each" /\ p.k <= Len(PlanIn(T, B)) THEN [q EXCEPT !.pc = "begin"]
                                 ELSE [q EXCEPT !.pc = "end", !.code = IF s.err # "" \/ B = "exit1" THEN 1 ELSE 0, !.said = TRUE]
                ELSE Fail(q, "commit-exit0"))

\* what the run shows when it is over, judged as a recorded execution is
MEnd ==
  /\ p.pc = "end"
  /\ LET e == [code |-> p.code, said |-> p.said, msg |-> "", exported |-> p.exported]
         s1 == IF s.tx THEN LostAfter(Conf(T), s, e) ELSE s    \* the connection is closed
         s2 == IF B = "says-nothing" THEN [s1 EXCEPT !.nothing = TRUE] ELSE s1
         t1 == [T EXCEPT !.exit = e, !.fault = p.fl # << >>, !.ref.has = @ /\ p.fl = << >>]  \* failed runs are not compared
     IN /\ s' = s2
        /\ viol' = viol \cup ExitBroken(Conf(T), s2, e) \cup Final(t1, s2)
        /\ Go([p EXCEPT !.pc = "done"])
        /\ PrintT("@@" \o ToJson([id |-> T.id, bug |-> B, fl |-> p.fl, viol |-> SetToSeq(viol'), plan |-> s2.plan, done |-> s2.done, code |-> p.code,
                                   nothing |-> s2.nothing, said |-> p.said, db |-> s2.db, committed |-> s2.committed]))

MNext == MLogin \/ MRead \/ MGen \/ MNothing \/ MDry \/ MBegin \/ MStep \/ MRollback \/ MCommit \/ MEnd
vars == << r, l, s, viol, p >>
MSpec == MInit /\ [][MNext]_vars /\ WF_vars(MNext)

----------------------------------------------------------------------------
CorrectIsQuiet == B = "none" => viol = {}
Over == p.pc = "done"
\* success is reported if and only if nothing failed
Truthful == Over /\ B = "none" => ((p.code = 0) <=> (s.err = "" /\ (T.valid \/ T.mode = "export")))
\* where DDL is transactional, the schema at the end is the old one or the planned one
Goal(t) == FoldLeft(LAMBDA st, it : IF Skips(t, it) THEN st ELSE Exec(t.d, st, it.ops).st, t.st, t.plan)
Atomic == Over /\ B = "none" /\ Txn(T.d) => s.db \in {T.st, Goal(T)}
\* the same, where it is not: some prefix of the plan took effect
Prefix == Over /\ B = "none" /\ T.mode = "apply" => \E n \in 0..Len(s.plan) : Len(s.done) = Cardinality({i \in 1..n : s.plan[i].w = "stmt"})
Untouched == B = "none" /\ (T.mode # "apply" \/ ~T.valid) => s.db = T.st
Terminates == <>Over
=============================================================================
