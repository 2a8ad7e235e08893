-------------------------------- MODULE Spell --------------------------------
(* Do two desired files mean the same schema?                               *)
EXTENDS Domain, Json, IOUtils
Tasks == ndJsonDeserialize(IOEnv.IN)
VARIABLES i, done
Init == i \in 1..Len(Tasks) /\ done = FALSE
SameFile(d, a, b) == LET A == ExecFile(d, EmptyDB, a) B == ExecFile(d, EmptyDB, b) IN A.ok /\ B.ok /\ Same(d, A.st, B.st)
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED i
        /\ LET t == Tasks[i] IN PrintT("@@" \o ToJson([id |-> t.id, r |-> [same |-> SameFile(t.d, t.a, t.b)]]))
=============================================================================
