--------------------------------- MODULE Maps ---------------------------------
(* Finite maps (functions with a finite domain), tokens as sequences.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Empty == <<>>                     \* the map with no keys, and the empty token
Keys(m) == DOMAIN m
Put(m, k, v) == (k :> v) @@ m
GetD(m, k, d) == IF k \in DOMAIN m THEN m[k] ELSE d
Opt(m, k) == IF k \in DOMAIN m THEN <<m[k]>> ELSE <<>>
Drop(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
Rng(s) == {s[i] : i \in DOMAIN s}

(* Number of occurrences of each element of a sequence.                        *)
Counts(s) == [t \in Rng(s) |-> Cardinality({i \in DOMAIN s : s[i] = t})]

(* The pairs of a list of pairs as a map; later pairs win.                      *)
RECURSIVE MapOf(_)
MapOf(ps) == IF ps = <<>> THEN <<>>
             ELSE LET n == Len(ps) IN Put(MapOf(SubSeq(ps, 1, n - 1)), ps[n][1], ps[n][2])
===============================================================================
