--------------------------------- MODULE Text ---------------------------------
(* Texts and tokens as sequences of characters (of whatever kind).               *)
EXTENDS Maps

(* The pieces between the separators, empty ones included.                       *)
SplitKeep(s, Sep(_)) ==
  LET cuts == SetToSortSeq({0, Len(s) + 1} \cup {i \in DOMAIN s : Sep(s[i])}, <)
  IN [j \in 1..Len(cuts) - 1 |-> SubSeq(s, cuts[j] + 1, cuts[j + 1] - 1)]

(* The maximal runs without a separator.                                         *)
Words(s, Sep(_)) == SelectSeq(SplitKeep(s, Sep), LAMBDA w : w # <<>>)

(* A token without the maximal runs of non-word characters at its ends.          *)
Trim(t, Word(_)) ==
  LET ws == {i \in DOMAIN t : Word(t[i])} IN
  IF ws = {} THEN <<>>
  ELSE SubSeq(t, CHOOSE i \in ws : \A j \in ws : i <= j, FoldSet(LAMBDA i, m : IF i > m THEN i ELSE m, 0, ws))

EndsWith(t, x) == Len(t) >= Len(x) /\ SubSeq(t, Len(t) - Len(x) + 1, Len(t)) = x
Chop(t, n) == SubSeq(t, 1, Len(t) - n)
===============================================================================
