----------------------------- MODULE EnglishStemmer ----------------------------
(* The Porter stemmer of elasticlunr.js, which works with regular expressions on    *)
(* UTF-16 strings. Words are sequences of code units. A regular expression is        *)
(* given by the positions its parts can end at.                                      *)
EXTENDS Text

Alphabet == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
CodeOf == [x \in Rng(Alphabet) |-> 96 + CHOOSE i \in DOMAIN Alphabet : Alphabet[i] = x]
W(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]

AEIOU == {97, 101, 105, 111, 117}
SmallY == 121
BigY == 89
SmallE == 101
AEIOUY == AEIOU \cup {SmallY}

(* C = [^aeiou][^aeiouy]*  and  V = [aeiouy][aeiou]*, started after position p.      *)
CEnds(w, p) == IF p < Len(w) /\ w[p + 1] \notin AEIOU
               THEN {q \in p + 1..Len(w) : \A k \in p + 2..q : w[k] \notin AEIOUY} ELSE {}
VEnds(w, p) == IF p < Len(w) /\ w[p + 1] \in AEIOUY
               THEN {q \in p + 1..Len(w) : \A k \in p + 2..q : w[k] \in AEIOU} ELSE {}
C(w, S) == UNION {CEnds(w, p) : p \in S}
V(w, S) == UNION {VEnds(w, p) : p \in S}
Start(w) == {0} \cup CEnds(w, 0)                      \* ^(C)?

VC(w) == C(w, V(w, Start(w)))
MoreThan0(w) == VC(w) # {}                            \* ^(C)?VC
Exactly1(w) == LET P == VC(w) IN Len(w) \in P \cup V(w, P)   \* ^(C)?VC(V)?$
MoreThan1(w) == C(w, V(w, VC(w))) # {}                \* ^(C)?VCVC
HasVowel(w) == \E p \in Start(w) : p < Len(w) /\ w[p + 1] \in AEIOUY   \* ^(C)?v
EndsCVC(w) == LET n == Len(w) IN                       \* ^Cv[^aeiouwxy]$
  n >= 3 /\ n - 2 \in CEnds(w, 0) /\ w[n - 1] \in AEIOUY /\ w[n] \notin AEIOUY \cup {119, 120}
EndsDouble(w) == LET n == Len(w) IN                    \* ([^aeiouylsz])\1$
  n >= 2 /\ w[n] = w[n - 1] /\ w[n] \notin AEIOUY \cup {108, 115, 122}

(* ^(.+?)(suffix)$: the suffix, with something before it.                            *)
Has(w, s) == Len(w) > Len(s) /\ EndsWith(w, s)
Base(w, s) == Chop(w, Len(s))

Rules(pairs) == [i \in DOMAIN pairs |-> <<W(pairs[i][1]), W(pairs[i][2])>>]

Step2Rules == Rules(<<
  <<"ational", "ate">>, <<"tional", "tion">>, <<"enci", "ence">>, <<"anci", "ance">>, <<"izer", "ize">>,
  <<"bli", "ble">>, <<"alli", "al">>, <<"entli", "ent">>, <<"eli", "e">>, <<"ousli", "ous">>,
  <<"ization", "ize">>, <<"ation", "ate">>, <<"ator", "ate">>, <<"alism", "al">>, <<"iveness", "ive">>,
  <<"fulness", "ful">>, <<"ousness", "ous">>, <<"aliti", "al">>, <<"iviti", "ive">>, <<"biliti", "ble">>,
  <<"logi", "log">> >>)
Step3Rules == Rules(<<
  <<"icate", "ic">>, <<"ative", "">>, <<"alize", "al">>, <<"iciti", "ic">>, <<"ical", "ic">>, <<"ful", "">>,
  <<"ness", "">> >>)
Step4Rules == Rules(<<
  <<"al", "">>, <<"ance", "">>, <<"ence", "">>, <<"er", "">>, <<"ic", "">>, <<"able", "">>, <<"ible", "">>,
  <<"ant", "">>, <<"ement", "">>, <<"ment", "">>, <<"ent", "">>, <<"ou", "">>, <<"ism", "">>, <<"ate", "">>,
  <<"iti", "">>, <<"ous", "">>, <<"ive", "">>, <<"ize", "">> >>)

SSES == W("sses")
IES == W("ies")
EED == W("eed")
ED == W("ed")
ING == W("ing")
ION == W("ion")
AT == W("at")
BL == W("bl")
IZ == W("iz")
LL == W("ll")

(* The longest suffix of a list that leaves something before it; 0 for none.         *)
Longest(w, R) == LET M == {i \in DOMAIN R : Has(w, R[i][1])} IN
                 IF M = {} THEN 0 ELSE CHOOSE i \in M : \A j \in M : Len(R[i][1]) >= Len(R[j][1])

Step1a(w) ==
  LET n == Len(w) IN
  IF Has(w, SSES) \/ Has(w, IES) THEN Chop(w, 2)
  ELSE IF n >= 3 /\ w[n] = 115 /\ w[n - 1] # 115 THEN Chop(w, 1)
  ELSE w

Mended(w) == IF EndsWith(w, AT) \/ EndsWith(w, BL) \/ EndsWith(w, IZ) THEN Append(w, SmallE)
             ELSE IF EndsDouble(w) THEN Chop(w, 1)
             ELSE IF EndsCVC(w) THEN Append(w, SmallE)
             ELSE w

Step1b(w) ==
  IF Has(w, EED) THEN (IF MoreThan0(Base(w, EED)) THEN Chop(w, 1) ELSE w)
  ELSE IF Has(w, ED) THEN (IF HasVowel(Base(w, ED)) THEN Mended(Base(w, ED)) ELSE w)
  ELSE IF Has(w, ING) THEN (IF HasVowel(Base(w, ING)) THEN Mended(Base(w, ING)) ELSE w)
  ELSE w

Step1c(w) ==
  LET n == Len(w) IN
  IF n >= 3 /\ w[n] = SmallY /\ w[n - 1] \notin AEIOU THEN Append(Chop(w, 1), 105) ELSE w

ByRule(w, R) ==
  LET i == Longest(w, R) IN
  IF i = 0 THEN w
  ELSE LET b == Base(w, R[i][1]) IN IF MoreThan0(b) THEN b \o R[i][2] ELSE w

Step2(w) == ByRule(w, Step2Rules)
Step3(w) == ByRule(w, Step3Rules)

Step4(w) ==
  LET i == Longest(w, Step4Rules) IN
  IF i # 0 THEN LET b == Base(w, Step4Rules[i][1]) IN IF MoreThan1(b) THEN b ELSE w
  ELSE IF Has(w, ION) THEN
    LET b == Base(w, ION) IN
    IF Len(b) >= 2 /\ b[Len(b)] \in {115, 116} /\ MoreThan1(b) THEN b ELSE w
  ELSE w

Step5a(w) ==
  IF Has(w, <<SmallE>>) THEN
    LET b == Chop(w, 1) IN IF MoreThan1(b) \/ (Exactly1(b) /\ ~EndsCVC(b)) THEN b ELSE w
  ELSE w
Step5b(w) == IF EndsWith(w, LL) /\ MoreThan1(w) THEN Chop(w, 1) ELSE w

RaiseY(w) == IF w[1] = SmallY THEN <<BigY>> \o Tail(w) ELSE w
LowerY(w) == IF w[1] = BigY THEN <<SmallY>> \o Tail(w) ELSE w

Stem(w) ==
  IF Len(w) < 3 THEN w
  ELSE LowerY(Step5b(Step5a(Step4(Step3(Step2(Step1c(Step1b(Step1a(RaiseY(w)))))))))) 
===============================================================================
