-------------------------------- MODULE Base --------------------------------
(* Small sequence / record helpers shared by all modules.                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

SeqHas(s, P(_)) == \E i \in DOMAIN s : P(s[i])

\* index of the first element satisfying P, 0 if none
IndexWhere(s, P(_)) ==
  IF \E i \in DOMAIN s : P(s[i])
  THEN CHOOSE i \in DOMAIN s : P(s[i]) /\ \A j \in 1..(i-1) : ~P(s[j])
  ELSE 0

Filter(s, P(_)) == SelectSeq(s, P)

MapSeq(s, F(_)) == [i \in DOMAIN s |-> F(s[i])]

InsertAfter(s, i, v) == SubSeq(s, 1, i) \o <<v>> \o SubSeq(s, i + 1, Len(s))

RemoveIdx(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

NoDup(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]

Join(s, sep) == FoldLeft(LAMBDA acc, x : IF acc = "" THEN x ELSE acc \o sep \o x, "", s)

MinOf(a, b) == IF a < b THEN a ELSE b
=============================================================================
