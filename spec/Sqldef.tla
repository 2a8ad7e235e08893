------------------------------- MODULE Sqldef -------------------------------
(* The tool as a state machine: one invocation, seen from its environment    *)
(* (database server, standard output, exit status).  Every action has        *)
(*   Broken_X(c, s, e)  the properties that taking it in state s would break *)
(*   After_X(c, s, e)   the state after it.                                  *)
(* The correct tool only takes actions with Broken = {}; a recorded          *)
(* execution is checked by taking its events as actions and collecting what  *)
(* they break.  c is the invocation:                                         *)
(*   [d, mode \in {apply, dry, export}, skip, valid, kind]                   *)
(* s is the state:                                                           *)
(*   db    committed schema          work  schema inside the transaction     *)
(*   tx    transaction open          err   first failure seen by the tool    *)
(*   pend  printed, not yet executed nothing, plan, skipped, done, committed *)
EXTENDS Equiv

Brk(p, w) == [p |-> p, what |-> w]
NoBrk == {}
When(b, p, w) == IF b THEN {Brk(p, w)} ELSE {}

InitState(st) ==
  [db |-> st, work |-> st, tx |-> FALSE, err |-> "", pend |-> << >>, plan |-> << >>, skipped |-> << >>, nothing |-> FALSE,
   done |-> << >>, committed |-> FALSE, rejected |-> FALSE, rolled |-> FALSE, alive |-> TRUE, steps |-> << >>, eff |-> FALSE, execd |-> FALSE]

Cur(s) == IF s.tx THEN s.work ELSE s.db

\* property blamed for a write that must not happen in this mode
ModeProp(c) == IF c.mode = "export" THEN "C10" ELSE "C09"

----------------------------------------------------------------------------
LoginBroken(c, s, e) == NoBrk
LoginAfter(c, s, e) == IF e.ok THEN s ELSE [s EXCEPT !.err = IF s.err = "" THEN "login" ELSE s.err]

ReadBroken(c, s, e) == NoBrk
ReadAfter(c, s, e) == IF e.ok THEN s ELSE [s EXCEPT !.err = IF s.err = "" THEN "read" ELSE s.err]

BeginBroken(c, s, e) == NoBrk
BeginAfter(c, s, e) ==
  \* the transaction may be started again on another connection
  IF e.ok THEN [s EXCEPT !.tx = TRUE, !.work = s.db, !.rejected = FALSE, !.err = IF @ = "begin" THEN "" ELSE @]
  ELSE [s EXCEPT !.err = IF s.err = "" THEN "begin" ELSE s.err]

----------------------------------------------------------------------------
(* Output, one item at a time: stmt, skip, nothing, none, apply, dry, note.  *)

AnyDestructive(ops) == \E i \in DOMAIN ops : Destructive(ops[i])
\* statements that remove a property of a column without removing an object may be skipped too
Weakening(ops) == \E i \in DOMAIN ops : ops[i].op \in {"dropNotNull", "dropDefault", "dropIdentity"}

PrintBroken(c, s, e) ==
  CASE e.w = "skip" ->
         When(~c.skip, "C08", "reported as skipped without --skip-drop: " \o e.txt)
         \cup When(c.skip /\ e.kind = "ddl" /\ ~AnyDestructive(e.ops) /\ ~Weakening(e.ops), "C08", "skipped although it drops nothing: " \o e.txt)
    [] e.w = "stmt" /\ c.mode = "dry" -> When(c.skip /\ AnyDestructive(e.ops), "C08", "dry run does not show as skipped: " \o e.txt)
    [] OTHER -> NoBrk
PrintAfter(c, s, e) ==
  CASE e.w = "stmt" -> [s EXCEPT !.pend = IF c.mode = "apply" THEN Append(@, e.txt) ELSE @, !.plan = Append(@, [w |-> "stmt", txt |-> e.txt])]
    [] e.w = "skip" -> [s EXCEPT !.skipped = Append(@, e.txt), !.plan = Append(@, [w |-> "skip", txt |-> e.txt])]
    [] e.w = "nothing" -> [s EXCEPT !.nothing = TRUE]
    [] OTHER -> s

----------------------------------------------------------------------------
ExecResult(c, s, e) == Exec(c.d, Cur(s), e.ops)

ExecBroken(c, s, e) ==
  When(c.mode # "apply", ModeProp(c), "a statement that writes was sent: " \o e.txt)
  \cup When(s.err \in {"login", "read"}, "C12", "a statement was sent although the schema could not be read: " \o e.txt)
  \cup When(~c.valid, "C13", "a statement was sent for an invalid desired file: " \o e.txt)
  \cup When(s.err \in {"begin", "exec", "commit", "rollback"}, "C11", "a statement was sent after a failure: " \o e.txt)
  \cup When(s.committed, "C11", "a statement was sent after the commit: " \o e.txt)
  \cup When(c.mode = "apply" /\ (s.pend = << >> \/ (s.pend # << >> /\ Head(s.pend) # e.txt)), "C14", "executed without having been printed: " \o e.txt)
  \cup When(Len(s.pend) > 1, "C14", "printed but not executed: " \o ToString(s.pend))
  \cup When(c.skip /\ AnyDestructive(e.ops), "C08", "dropped although --skip-drop is given: " \o e.txt)
  \cup When(e.kind # "ddl", "C07", "not a valid DDL statement: " \o e.txt)
  \cup When(e.kind = "ddl" /\ ~e.inj /\ s.err = "" /\ ~ExecResult(c, s, e).ok, CASE c.kind = "resume" -> "C18" [] c.kind = "spell" -> "C05" [] OTHER -> "C07",
            "rejected by the database (" \o ExecResult(c, s, e).why \o "): " \o e.txt)

Consume(pend, txt) == IF \E i \in DOMAIN pend : pend[i] = txt
                      THEN RemoveIdx(pend, IndexWhere(pend, LAMBDA x : x = txt)) ELSE pend

ExecAfter(c, s, e) ==
  LET r == ExecResult(c, s, e)
      failed == ~e.ok \/ (e.inj)
      ns == IF e.ok /\ r.ok THEN r.st ELSE Cur(s)
      s1 == [s EXCEPT !.pend = Consume(@, e.txt), !.execd = TRUE,
                      !.done = IF e.ok THEN Append(@, e.txt) ELSE @,
                      !.err = IF failed /\ s.err = "" THEN "exec" ELSE s.err,
                      !.rejected = IF failed /\ ~(e.inj /\ e.ok) THEN TRUE ELSE @,
                      !.steps = IF e.ok THEN Append(@, ns) ELSE @]
  IN IF s.tx /\ Txn(c.d) THEN [s1 EXCEPT !.work = ns]
     ELSE [s1 EXCEPT !.db = ns, !.work = ns]

CommitBroken(c, s, e) ==
  When(s.rejected /\ s.tx, "C11", "commit after a failed statement")
CommitAfter(c, s, e) ==
  LET s1 == [s EXCEPT !.tx = FALSE, !.db = IF e.eff THEN s.work ELSE s.db, !.eff = e.eff] IN
  IF e.ok THEN [s1 EXCEPT !.committed = TRUE]
  ELSE [s1 EXCEPT !.err = IF s.err = "" THEN "commit" ELSE s.err]

RollbackBroken(c, s, e) == NoBrk
RollbackAfter(c, s, e) == [s EXCEPT !.tx = FALSE, !.work = s.db, !.rolled = TRUE,
                             !.err = IF e.ok \/ s.err # "" THEN s.err ELSE "rollback"]

LostBroken(c, s, e) == NoBrk
LostAfter(c, s, e) == [s EXCEPT !.tx = FALSE, !.work = s.db, !.alive = FALSE]

----------------------------------------------------------------------------
(* Exit.  e: code, said (something was printed to stderr or stdout besides   *)
(* the plan).                                                                *)

ErrProp(c, s) == IF s.err \in {"login", "read"} THEN "C12" ELSE "C11"

ExitBroken(c, s, e) ==
  When(e.code = 0 /\ s.err # "", ErrProp(c, s), "exit status 0 after a failure (" \o s.err \o ")")
  \cup When(e.code = 0 /\ s.err = "" /\ ~c.valid /\ c.mode # "export", "C13", "exit status 0 for an invalid desired file")
  \cup When(e.code # 0 /\ s.err = "" /\ c.valid,
            CASE c.kind = "resume" -> "C18" [] c.kind \in {"spell", "spellagain"} -> "C05" [] c.kind \in {"again", "again2"} -> "C04" [] c.mode = "dry" -> "C09" [] c.mode = "export" -> "C10"
              [] c.kind \in {"exportre", "exportempty"} -> "C10" [] OTHER -> "C07",
            "exit status " \o ToString(e.code) \o " although nothing failed: " \o e.msg)
  \cup When(e.code # 0 /\ ~e.said, IF ~c.valid THEN "C13" ELSE ErrProp(c, s), "failure without an error message")
  \cup When(e.code = 0 /\ s.err = "" /\ s.execd /\ Txn(c.d) /\ ~s.committed, "C11", "exit status 0 without a commit")
  \cup When(s.rejected /\ s.alive /\ Txn(c.d) /\ s.tx, "C11", "the failed transaction was not rolled back")
  \cup When(s.err \in {"begin", "exec", "commit"} /\ Txn(c.d) /\ c.mode = "apply" /\ ~s.eff /\ c.st # s.db, "C11", "a failed apply changed the schema")
  \cup When(e.code = 0 /\ c.mode = "apply" /\ s.pend # << >>, "C14", "printed but not executed: " \o ToString(s.pend))
  \cup When(c.mode # "export" /\ e.code = 0 /\ s.err = "" /\ c.valid /\ s.nothing # (s.plan = << >>), "C14",
            IF s.nothing THEN "'Nothing is modified' printed together with a plan" ELSE "an empty plan is not reported as 'Nothing is modified'")
  \cup When(s.nothing /\ s.execd, "C14", "'Nothing is modified' printed but statements were executed")
  \cup When(c.mode = "export" /\ s.err = "read" /\ e.code # 0 /\ e.exported, "C12", "a partial schema was exported")
=============================================================================
