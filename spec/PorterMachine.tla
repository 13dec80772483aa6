------------------------------ MODULE PorterMachine ----------------------------
(* The English stemmer as this crate computes it: one buffer, its used length k, the  *)
(* position j of the last matched suffix, and a machine that goes through the steps    *)
(* of Porter's algorithm. It is compared with EnglishStemmer, which says what the       *)
(* regular expressions of elasticlunr.js do; it has no regular expressions, it counts  *)
(* consonants and vowels. Writing outside the buffer is not possible for it.           *)
EXTENDS EnglishStemmer, Json

CONSTANTS Letters,      \* letters of the generated words
          MaxBase,      \* length of the part before the suffixes
          Endings,      \* suffixes appended to it
          Emit

VARIABLES word, b, k, j, pc
pmvars == <<word, b, k, j, pc>>

Vowels == AEIOU
(* y is a consonant at the start and behind a vowel.                                    *)
RECURSIVE Consonant(_)
Consonant(i) == IF b[i] = SmallY THEN i = 1 \/ ~Consonant(i - 1) ELSE b[i] \notin Vowels
ConsUpTo(n) == {i \in 1..n : Consonant(i)}
Measure(n) == Cardinality({i \in 2..n : Consonant(i) /\ ~Consonant(i - 1)})
Vowel(n) == \E i \in 1..n : ~Consonant(i)
Twice(n) == n >= 2 /\ b[n] = b[n - 1] /\ Consonant(n)
CVC(n) == n >= 3 /\ Consonant(n) /\ ~Consonant(n - 1) /\ Consonant(n - 2) /\ b[n] \notin {119, 120, SmallY}

Used == SubSeq(b, 1, k)
Ends(s) == EndsWith(Used, s)
At(s) == k - Len(s)

(* Overwriting the buffer behind position n; the rest of the buffer stays.              *)
Fits(n, s) == n + Len(s) <= Len(b)
Write(n, s) == /\ Assert(Fits(n, s), <<"outside the buffer", word, n, s>>)
               /\ b' = [i \in DOMAIN b |-> IF i \in n + 1..n + Len(s) THEN s[i - n] ELSE b[i]]
               /\ k' = n + Len(s)
Shorten(n) == /\ Assert(k - n >= 1, <<"nothing left", word>>) /\ k' = k - n /\ UNCHANGED b
Leave == UNCHANGED <<b, k>>
Goto(p) == pc' = p /\ UNCHANGED word

Plural ==
  /\ pc = "plural" /\ Goto("past")
  /\ IF b[k] # 115 THEN Leave
     ELSE IF Ends(SSES) /\ At(SSES) > 0 THEN Shorten(2)
     ELSE IF Ends(IES) /\ At(IES) > 0 THEN Write(At(IES), <<105>>)
     ELSE IF b[k - 1] # 115 THEN Shorten(1) ELSE Leave
  /\ UNCHANGED j

Past ==
  /\ pc = "past"
  /\ IF Ends(EED) /\ At(EED) > 0
     THEN (IF Measure(At(EED)) > 0 THEN Shorten(1) ELSE Leave) /\ Goto("y") /\ UNCHANGED j
     ELSE LET e == IF Ends(ED) THEN ED ELSE IF Ends(ING) THEN ING ELSE <<>> IN
          IF e # <<>> /\ Vowel(At(e)) THEN k' = At(e) /\ j' = At(e) /\ UNCHANGED b /\ Goto("mend")
          ELSE Leave /\ Goto("y") /\ UNCHANGED j

Mend ==
  /\ pc = "mend" /\ Goto("y") /\ UNCHANGED j
  /\ IF Ends(AT) \/ Ends(BL) \/ Ends(IZ) THEN Write(k, <<SmallE>>)
     ELSE IF Twice(k) THEN (IF b[k] \in {108, 115, 122, SmallY} THEN Leave ELSE Shorten(1))
     ELSE IF Measure(k) = 1 /\ CVC(k) THEN Write(k, <<SmallE>>)
     ELSE Leave

Why ==
  /\ pc = "y" /\ Goto("two") /\ UNCHANGED j
  /\ IF k > 2 /\ b[k] = SmallY /\ b[k - 1] \notin Vowels THEN Write(k - 1, <<105>>) ELSE Leave

(* Rules in the order in which the code tries them; the first whose suffix is there is   *)
(* the one that counts, whether it applies or not.                                       *)
FirstRule(R) == LET M == {i \in DOMAIN R : Ends(R[i][1])} IN
                IF M = {} THEN 0 ELSE CHOOSE i \in M : \A m \in M : i <= m
Replace(R, next) ==
  LET i == FirstRule(R) IN
  /\ Goto(next)
  /\ IF i # 0 /\ Measure(At(R[i][1])) > 0 THEN Write(At(R[i][1]), R[i][2]) ELSE Leave
  /\ UNCHANGED j
Two == pc = "two" /\ Replace(Step2Rules, "three")
Three == pc = "three" /\ Replace(Step3Rules, "four")

Four ==
  /\ pc = "four" /\ Goto("five")
  /\ LET i == FirstRule(Step4Rules)
         ion == Ends(ION) /\ At(ION) > 0 /\ b[At(ION)] \in {115, 116}
         n == IF ion THEN At(ION) ELSE IF i # 0 THEN At(Step4Rules[i][1]) ELSE -1
     IN IF n >= 0 /\ Measure(n) > 1 THEN k' = n /\ UNCHANGED b ELSE Leave
  /\ UNCHANGED j

Five ==
  /\ pc = "five" /\ Goto("ll")
  /\ j' = k
  /\ IF b[k] = SmallE /\ (Measure(k) > 1 \/ (Measure(k) = 1 /\ ~CVC(k - 1))) THEN Shorten(1) ELSE Leave
LL5 ==
  /\ pc = "ll" /\ Goto("done") /\ UNCHANGED j
  /\ IF b[k] = 108 /\ Twice(k) /\ Measure(j) > 1 THEN Shorten(1) ELSE Leave

Bases == UNION {[1..n -> Letters] : n \in 0..MaxBase}
StemWords == {w \in {x \o e : x \in Bases, e \in Endings} : Len(w) > 2}

PMInit == word \in StemWords /\ b = word /\ k = Len(word) /\ j = 0 /\ pc = "plural"
PMNext == Plural \/ Past \/ Mend \/ Why \/ Two \/ Three \/ Four \/ Five \/ LL5
PMSpec == PMInit /\ [][PMNext]_pmvars /\ WF_pmvars(PMNext)

(* C15: both stemmers agree, step by step and in the end; something always remains.      *)
Raised == RaiseY(word)
AfterPlural == pc = "past" => Used = LowerY(Step1a(Raised))
AfterPast == pc = "y" => Used = LowerY(Step1b(Step1a(Raised)))
AfterY == pc = "two" => Used = LowerY(Step1c(Step1b(Step1a(Raised))))
Agrees == pc = "done" => Used = Stem(word)
Remains == k \in 1..Len(b)
NotLonger == pc = "done" => k <= Len(word)
Stops == <>(pc = "done")
EmitStem == pc # "done" \/ ~Emit \/ PrintT("@T " \o ToJson(<<word, Used>>))
===============================================================================
