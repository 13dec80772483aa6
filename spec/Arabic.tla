--------------------------------- MODULE Arabic --------------------------------
(* Arabic: one stage, which removes marks and unifies the forms of alef.             *)
EXTENDS Maps

Tatweel == 1600
Marks == {Tatweel} \cup 1611..1627            \* U+0640, U+064B to U+065B
Alef == 1575                                  \* U+0627
AlefForms == {1570, 1571, 1573, 1649, 1609}   \* U+0622 U+0623 U+0625 U+0671 U+0649

Unmarked(t) == SelectSeq(t, LAMBDA c : c \notin Marks)
Unified(t) == [i \in DOMAIN t |-> IF t[i] \in AlefForms THEN Alef ELSE t[i]]
Some1(t) == IF t = <<>> THEN <<>> ELSE <<t>>

ArabicStage(t) == Some1(Unified(Unmarked(t)))

(* The deviation of this tree: only the first form of alef in a token is replaced.   *)
FirstUnified(t) ==
  LET at == {i \in DOMAIN t : t[i] \in AlefForms} IN
  [i \in DOMAIN t |-> IF i \in at /\ \A j \in at : i <= j THEN Alef ELSE t[i]]
ArabicDeviation(t) == Some1(FirstUnified(Unmarked(t)))
===============================================================================
