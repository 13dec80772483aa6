------------------------------- MODULE Trimming -------------------------------
(* Trimming as a machine: while the first or the last character is foreign it may go,   *)
(* in any order. Whatever the order, what remains is what Trim says: nothing of a word,  *)
(* and nothing between words, is touched.                                                *)
EXTENDS Text, Json

CONSTANTS WordLetters, ForeignLetters, MaxText, Emit

VARIABLES text, lo, hi       \* the part from lo to hi is left
trvars == <<text, lo, hi>>

IsWord(c) == c \in WordLetters
Letters == WordLetters \cup ForeignLetters
Left == SubSeq(text, lo, hi)

TrInit == /\ text \in UNION {[1..n -> Letters] : n \in 0..MaxText}
          /\ lo = 1 /\ hi = Len(text)
FromFront == lo <= hi /\ ~IsWord(text[lo]) /\ lo' = lo + 1 /\ UNCHANGED <<text, hi>>
FromBack == lo <= hi /\ ~IsWord(text[hi]) /\ hi' = hi - 1 /\ UNCHANGED <<text, lo>>
TrSpec == TrInit /\ [][FromFront \/ FromBack]_trvars /\ WF_trvars(FromFront \/ FromBack)

Trimmed == ~ENABLED (FromFront \/ FromBack)
Exact == Trimmed => Left = Trim(text, IsWord)
WordsKept == \A i \in DOMAIN text : IsWord(text[i]) => lo <= i /\ i <= hi
InsideKept == \A i \in DOMAIN text : (\E j \in 1..i : IsWord(text[j])) /\ (\E j \in i..Len(text) : IsWord(text[j])) => lo <= i /\ i <= hi
Stable == Trim(Trim(text, IsWord), IsWord) = Trim(text, IsWord)
(* What a trimmer does to a word does not depend on what else there is at its ends.       *)
Additive == Trim(text, IsWord) # <<>> => \A c \in ForeignLetters : Trim(<<c>> \o text, IsWord) = Trim(text, IsWord) /\ Trim(text \o <<c>>, IsWord) = Trim(text, IsWord)
EndsAlways == <>Trimmed
EmitTrim == ~Emit \/ lo # 1 \/ hi # Len(text) \/ PrintT("@T " \o ToJson([t |-> text, r |-> Trim(text, IsWord)]))
===============================================================================
