-------------------------------- MODULE Slots --------------------------------
(* For each slot (a list of desired files) the schema every file means, and  *)
(* which transitions between two of them are not to be judged, with reasons. *)
(* Index 0 is the empty schema.                                              *)
EXTENDS Domain, Json, IOUtils
Tasks == ndJsonDeserialize(IOEnv.IN)
VARIABLES i, done
Init == i \in 1..Len(Tasks) /\ done = FALSE

Meanings(t) == TLCEval([j \in DOMAIN t.files |-> ExecFile(t.d, EmptyDB, t.files[j])])
StOf(M, j) == IF j = 0 THEN EmptyDB ELSE M[j].st
Pairs(t, M) == LET N == {j \in DOMAIN M : M[j].ok} IN
  {[a |-> a, b |-> b, why |-> SetToSeq(Out(t.d, StOf(M, a), StOf(M, b)))] : a \in N \cup {0}, b \in N \cup {0}}

OkOf(M) == {j \in DOMAIN M : M[j].ok}

Next == /\ ~done /\ done' = TRUE /\ UNCHANGED i
        /\ LET t == Tasks[i]
               M == Meanings(t)
           IN PrintT("@@" \o ToJson([id |-> t.id, r |->
                [m |-> M, same |-> IF t.eq THEN SetToSeq({p \in OkOf(M) \X OkOf(M) : p[1] # p[2] /\ Same(t.d, M[p[1]].st, M[p[2]].st)}) ELSE << >>,
                 excl |-> SetToSeq({p \in Pairs(t, M) : p.why # << >>}),
                 exp |-> [j \in DOMAIN M |-> IF M[j].ok THEN SetToSeq(ExportOut(t.d, M[j].st)) ELSE << >>]]]))
=============================================================================
