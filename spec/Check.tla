-------------------------------- MODULE Check --------------------------------
(* Trace validation: every recorded execution of the real binaries is taken  *)
(* as a sequence of actions of module Sqldef, one step per event; what it    *)
(* breaks is collected, and at the end the final state is compared with what *)
(* the desired file means.                                                   *)
EXTENDS Sqldef, Domain, Json, IOUtils
Tasks == ndJsonDeserialize(IOEnv.IN)

VARIABLES r, l, s, viol
\* a recorded trace has one successor per event, so its position identifies a state
TracePos == << r, l >>

C(t) == [d |-> t.d, mode |-> t.mode, skip |-> t.skip, valid |-> t.valid, kind |-> t.kind, st |-> t.st]

Init == /\ r \in 1..Len(Tasks)
        /\ l = 1
        /\ s = InitState(Tasks[r].st)
        /\ viol = {}

PrintFold(c, s0, items) ==
  FoldLeft(LAMBDA acc, it : [s |-> PrintAfter(c, acc.s, it), v |-> acc.v \cup PrintBroken(c, acc.s, it)], [s |-> s0, v |-> {}], items)

IsEv(k) == l <= Len(Tasks[r].ev) /\ Tasks[r].ev[l].k = k /\ l' = l + 1 /\ r' = r

Login    == IsEv("login")    /\ LET t == Tasks[r] e == t.ev[l] c == C(t) IN s' = LoginAfter(c, s, e)    /\ viol' = viol \cup LoginBroken(c, s, e)
Read     == IsEv("read")     /\ LET t == Tasks[r] e == t.ev[l] c == C(t) IN s' = ReadAfter(c, s, e)     /\ viol' = viol \cup ReadBroken(c, s, e)
Begin    == IsEv("begin")    /\ LET t == Tasks[r] e == t.ev[l] c == C(t) IN s' = BeginAfter(c, s, e)    /\ viol' = viol \cup BeginBroken(c, s, e)
Execute  == IsEv("exec")     /\ LET t == Tasks[r] e == t.ev[l] c == C(t) IN s' = ExecAfter(c, s, e)     /\ viol' = viol \cup ExecBroken(c, s, e)
Commit   == IsEv("commit")   /\ LET t == Tasks[r] e == t.ev[l] c == C(t) IN s' = CommitAfter(c, s, e)   /\ viol' = viol \cup CommitBroken(c, s, e)
Rollback == IsEv("rollback") /\ LET t == Tasks[r] e == t.ev[l] c == C(t) IN s' = RollbackAfter(c, s, e) /\ viol' = viol \cup RollbackBroken(c, s, e)
Lost     == IsEv("lost")     /\ LET t == Tasks[r] e == t.ev[l] c == C(t) IN s' = LostAfter(c, s, e)     /\ viol' = viol \cup LostBroken(c, s, e)
Output   == IsEv("print")    /\ LET t == Tasks[r] e == t.ev[l] c == C(t) f == PrintFold(c, s, e.items) IN s' = f.s /\ viol' = viol \cup f.v

----------------------------------------------------------------------------
(* The end of the run.                                                      *)

Tag(t, p) == CASE t.kind \in {"spell", "spellagain"} -> "C05"
               [] t.kind = "resume" -> "C18"
               [] t.kind = "noise" -> "C17"
               [] t.kind = "exportempty" -> "C10"
               [] OTHER -> p

Texts(plan) == [i \in DOMAIN plan |-> plan[i].txt]
Count(seq, x) == Cardinality({i \in DOMAIN seq : seq[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Count(a, a[i]) = Count(b, a[i])
\* the first difference between two plans
PlanDiff(a, b) ==
  LET k == IndexWhere(a, LAMBDA x : TRUE)
      n == IF \E i \in DOMAIN a : i > Len(b) \/ a[i] # b[i] THEN CHOOSE i \in DOMAIN a : (i > Len(b) \/ a[i] # b[i]) /\ \A j \in 1..(i-1) : j <= Len(b) /\ a[j] = b[j]
           ELSE Len(a) + 1
  IN (IF n <= Len(a) THEN ToString(a[n]) ELSE "nothing") \o " where the other run has " \o (IF n <= Len(b) THEN ToString(b[n]) ELSE "nothing")

EmptyPlanProp(t) == CASE t.kind \in {"again", "again2"} -> "C04" [] t.kind \in {"exportre"} -> "C10" [] t.kind = "spellagain" -> "C05"
                      [] t.kind = "resumeagain" -> "C18" [] t.kind = "noiseagain" -> "C17" [] OTHER -> ""

First(plan) == IF plan = << >> THEN "" ELSE plan[1].txt

\* reasons not to judge convergence of this transition
Excl(t) == IF ~t.valid THEN {} ELSE IF t.kind \in {"export", "exportre", "exportempty"} THEN ExportOut(t.d, IF t.kind = "exportempty" THEN t.ref.post ELSE t.st) \ (IF t.kind = "exportempty" THEN {} ELSE {"k:export-order"}) ELSE LET D == ExecFile(t.d, EmptyDB, t.file) IN IF D.ok THEN Out(t.d, t.st, D.st) ELSE {"u:file"}

Final(t, f) ==
  LET c == C(t)
      e == t.exit
      D == ExecFile(t.d, EmptyDB, t.file)
      R == ExecFile(t.d, EmptyDB, t.real.file)
      complete == t.mode = "apply" /\ e.code = 0 /\ f.err = "" /\ t.valid /\ ~t.fault /\ D.ok
      P == f.db
      Q == IF t.real.has /\ R.ok THEN R.st ELSE P
      full == complete /\ ~t.skip
      goal == IF t.kind = "exportempty" /\ t.ref.has THEN t.ref.post ELSE D.st
      ctag(p, S) == {Brk(Tag(t, p), w) : w \in S}
  IN (IF full THEN ctag("C01", Diff1(t.d, t.st, Q, goal)) \cup ctag("C02", Diff2(t.d, Q, goal)) \cup ctag("C03", Diff3(t.d, Q, goal)) ELSE {})
     \cup (IF full /\ t.kind \notin {"exportempty"} THEN {Brk("C06", w) : w \in Survive(t.d, t.st, D.st, P)} ELSE {})
     \cup (IF complete /\ t.skip THEN {Brk("C08", "gone with --skip-drop: " \o w) : w \in Gone(t.st, P)} ELSE {})
     \cup When(t.kind = "skip" /\ t.ref.has /\ e.code = 0 /\ Texts(f.plan) # Texts(t.ref.plan), "C08",
               "with --skip-drop the plan has " \o PlanDiff(Texts(f.plan), Texts(t.ref.plan)))
     \cup When(t.kind = "dryskip" /\ t.ref.has /\ f.plan # t.ref.plan, "C08",
               "dry run with --skip-drop shows " \o PlanDiff(f.plan, t.ref.plan))
     \cup When(t.kind = "dryskip" /\ t.ref.has /\ f.plan # t.ref.plan, "C09",
               "dry run with --skip-drop shows " \o PlanDiff(f.plan, t.ref.plan))
     \cup When(t.kind = "dry" /\ t.ref.has /\ f.plan # t.ref.plan, "C09", "dry run shows " \o PlanDiff(f.plan, t.ref.plan))
     \cup When(EmptyPlanProp(t) # "" /\ e.code = 0 /\ (f.plan # << >> \/ f.execd), EmptyPlanProp(t), "planned on a matching schema: " \o First(f.plan))
     \cup When(t.kind \in {"repeat", "stdin"} /\ t.ref.has /\ f.plan # t.ref.plan, "C16", "a second run has " \o PlanDiff(f.plan, t.ref.plan))
     \cup When(t.kind = "perm" /\ t.ref.has /\ ~SameBag(Texts(f.plan), Texts(t.ref.plan)), "C16",
               "with another catalog row order the plan has " \o PlanDiff(Texts(f.plan), Texts(t.ref.plan)))
     \cup When(t.kind = "perm" /\ t.ref.has /\ full /\ Excl(t) = {} /\ ~Same(t.d, P, t.ref.post), "C16", "with another catalog row order the resulting schema differs")
     \cup When(t.kind = "noise" /\ t.ref.has /\ f.plan # t.ref.plan, "C17", "with unrelated objects the plan has " \o PlanDiff(f.plan, t.ref.plan))
     \cup (IF t.mode = "export" /\ t.exp.has /\ ~t.fault
           THEN IF ~t.exp.ok THEN {Brk("C10", "the exported text is not valid: " \o t.exp.why)}
                ELSE LET X == IF t.kind # "exportorder" /\ (t.d = "mysql" \/ "k:export-order" \in ExportOut(t.d, t.st)) THEN ExecAny(t.d, EmptyDB, t.exp.file) ELSE ExecFile(t.d, EmptyDB, t.exp.file) IN
                     IF ~X.ok THEN {Brk("C10", "the exported text cannot be executed on an empty database: " \o X.why)}
                     ELSE {Brk("C10", "exported: " \o w) : w \in Diff(t.d, X.st, X.st, t.st)} \cup {Brk("C10", "database: " \o w) : w \in Diff(t.d, t.st, t.st, X.st)}
           ELSE {})
     \cup When(t.real.has /\ ~R.ok, "C14", "the resulting database cannot be read back: " \o R.why)
     \cup (IF t.real.has /\ R.ok
           THEN When(~Same(t.d, R.st, P), IF f.err # "" \/ e.code # 0 THEN "C11" ELSE "C14",
                     "the database differs from what was reported as executed: " \o ToString(Diff(t.d, P, R.st, P) \cup Diff(t.d, R.st, P, R.st)))
           ELSE {})

Post(t, f) == f.db

Finish == /\ l = Len(Tasks[r].ev) + 1 /\ l' = l + 1 /\ r' = r
          /\ LET t == Tasks[r] IN
             /\ s' = s
             /\ viol' = viol \cup ExitBroken(C(t), s, t.exit) \cup Final(t, s)
             /\ PrintT("@@" \o ToJson([id |-> t.id, r |->
                   [viol |-> SetToSeq(viol'), excl |-> SetToSeq(Excl(t)), post |-> Post(t, s), steps |-> IF t.want THEN s.steps ELSE << >>,
                    complete |-> t.mode = "apply" /\ t.exit.code = 0 /\ s.err = "" /\ t.valid]]))

Next == Login \/ Read \/ Begin \/ Execute \/ Commit \/ Rollback \/ Lost \/ Output \/ Finish
=============================================================================
