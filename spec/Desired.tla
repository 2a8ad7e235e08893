------------------------------- MODULE Desired -------------------------------
(* What a desired file means: the schema obtained by executing it on a given *)
(* database (normally the empty one).                                        *)
EXTENDS Engine, Json, IOUtils
Tasks == ndJsonDeserialize(IOEnv.IN)
VARIABLES i, done
Init == i \in 1..Len(Tasks) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED i
        /\ LET t == Tasks[i] IN PrintT("@@" \o ToJson([id |-> t.id, r |-> IF t.refuse THEN [refuse |-> Refusable(t.d, t.file)] ELSE ExecFile(t.d, t.st, t.file)]))
=============================================================================
