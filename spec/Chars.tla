--------------------------------- MODULE Chars --------------------------------
(* Character classes, from Unicode tables (data/chars.json, made from node's ICU,   *)
(* not from the tables the implementation uses). Characters are code points.        *)
EXTENDS Text, Json, IOUtils

CharData == JsonDeserialize(IOEnv.SPECDATA \o "/chars.json")

InRanges(c, rs) == \E i \in DOMAIN rs : rs[i][1] <= c /\ c <= rs[i][2]

White(c) == \/ c \in 9..13 \/ c = 32
            \/ (c > 127 /\ InRanges(c, CharData.white))
Hyphen == 45
Separator(c) == c = Hyphen \/ White(c)

LowerMap == [x \in {CharData.lower[i][1] : i \in DOMAIN CharData.lower} |->
               CharData.lower[CHOOSE i \in DOMAIN CharData.lower : CharData.lower[i][1] = x][2]]
Cased(c) == InRanges(c, CharData.cased)
Ignorable(c) == InRanges(c, CharData.ignorable)

Sigma == 931
FinalSigma == 962
SmallSigma == 963
(* A sigma ends a word if a cased letter comes before it and none after it, where   *)
(* case-ignorable characters do not count.                                          *)
CasedBefore(s, i) == \E j \in 1..i - 1 : Cased(s[j]) /\ ~Ignorable(s[j]) /\ \A k \in j + 1..i - 1 : Ignorable(s[k])
CasedAfter(s, i) == \E j \in i + 1..Len(s) : Cased(s[j]) /\ ~Ignorable(s[j]) /\ \A k \in i + 1..j - 1 : Ignorable(s[k])

LowerAt(s, i) ==
  LET c == s[i] IN
  IF c < 128 THEN (IF c \in 65..90 THEN <<c + 32>> ELSE <<c>>)
  ELSE IF c = Sigma THEN (IF CasedBefore(s, i) /\ ~CasedAfter(s, i) THEN <<FinalSigma>> ELSE <<SmallSigma>>)
  ELSE IF c \in DOMAIN LowerMap THEN LowerMap[c] ELSE <<c>>

Lower(s) ==
  IF \A i \in DOMAIN s : s[i] < 128 \/ (s[i] # Sigma /\ s[i] # 304)
  THEN [i \in DOMAIN s |-> LowerAt(s, i)[1]]
  ELSE FlattenSeq([i \in DOMAIN s |-> LowerAt(s, i)])

(* Tokenization of every language but Chinese and Japanese.                         *)
Tokenize(s) == LET ws == Words(s, Separator) IN [i \in DOMAIN ws |-> Lower(ws[i])]

(* UTF-16, which the stemmers of elasticlunr.js see.                                *)
UnitsOf(c) == IF c < 65536 THEN <<c>>
              ELSE <<55296 + ((c - 65536) \div 1024), 56320 + ((c - 65536) % 1024)>>
ToUnits(s) == IF \A i \in DOMAIN s : s[i] < 65536 THEN s ELSE FlattenSeq([i \in DOMAIN s |-> UnitsOf(s[i])])
IsHigh(u) == u \in 55296..56319
IsLow(u) == u \in 56320..57343
FromUnits(u) ==
  IF \A i \in DOMAIN u : u[i] \notin 55296..57343 THEN u
  ELSE LET starts == SelectSeq([i \in DOMAIN u |-> i], LAMBDA i : ~(IsLow(u[i]) /\ i > 1 /\ IsHigh(u[i - 1])))
       IN [k \in DOMAIN starts |->
             LET i == starts[k] IN
             IF IsHigh(u[i]) /\ i < Len(u) /\ IsLow(u[i + 1])
             THEN 65536 + (u[i] - 55296) * 1024 + (u[i + 1] - 56320) ELSE u[i]]
===============================================================================
