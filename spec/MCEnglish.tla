------------------------------- MODULE MCEnglish -------------------------------
(* English from text to tokens on every text over a few letters: the text grows by one *)
(* character at a time, as a user types it.                                            *)
EXTENDS English

CONSTANTS Letters, MaxText, Emit

VARIABLES text, toks
mevars == <<text, toks>>

Init == text = <<>> /\ toks = <<>>
Type(c) == Len(text) < MaxText /\ text' = Append(text, c) /\ toks' = EnglishTokens(text')
Next == \E c \in Letters : Type(c)
Spec == Init /\ [][Next]_mevars

(* No empty token, no separator in a token, no capital of the alphabet, nothing foreign  *)
(* at the end at which the stemmer does not work.                                        *)
NoEmptyToken == \A i \in DOMAIN toks : toks[i] # <<>>
NoSeparator == \A i \in DOMAIN toks : \A j \in DOMAIN toks[i] : ~Separator(toks[i][j])
NoCapital == \A i \in DOMAIN toks : \A j \in DOMAIN toks[i] : toks[i][j] \notin 65..90
StartsWithWord == \A i \in DOMAIN toks : WordUnit(toks[i][1])
NotMore == Len(toks) <= Len(Words(text, Separator))
(* A separator makes two texts of one.                                                   *)
Additive == \A i \in DOMAIN text : Separator(text[i]) =>
              toks = EnglishTokens(SubSeq(text, 1, i - 1)) \o EnglishTokens(SubSeq(text, i + 1, Len(text)))
CaseBlind == EnglishTokens(Lower(text)) = toks
(* What was typed before the last word stays.                                            *)
Kept == LET n == Len(toks) - 1 IN n < 0 \/ (Len(toks') >= n /\ SubSeq(toks', 1, n) = SubSeq(toks, 1, n))
EarlierKept == [][Kept]_mevars
EmitText == ~Emit \/ PrintT("@T " \o ToJson(<<text, toks>>))

(* t h e s . - space A *)
LettersQuick == {116, 104, 101, 115, 46, 32}
LettersMore == {116, 104, 101, 115, 46, 45, 65}
===============================================================================
