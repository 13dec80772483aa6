-------------------------------- MODULE Tokenizer ------------------------------
(* Tokenizing as a machine that reads one character at a time: a word grows until a    *)
(* separator or the end of the text, and is put out in lower case.                     *)
EXTENDS Chars

CONSTANTS Letters, MaxText, Emit

VARIABLES text, pos, word, out
tkvars == <<text, pos, word, out>>

Texts == UNION {[1..n -> Letters] : n \in 0..MaxText}

TkInit == text \in Texts /\ pos = 0 /\ word = <<>> /\ out = <<>>

Read == /\ pos < Len(text) /\ ~Separator(text[pos + 1])
        /\ word' = Append(word, text[pos + 1]) /\ pos' = pos + 1 /\ UNCHANGED <<text, out>>
Cut == /\ pos < Len(text) /\ Separator(text[pos + 1])
       /\ out' = (IF word = <<>> THEN out ELSE Append(out, Lower(word)))
       /\ word' = <<>> /\ pos' = pos + 1 /\ UNCHANGED text
End == /\ pos = Len(text)
       /\ out' = (IF word = <<>> THEN out ELSE Append(out, Lower(word)))
       /\ word' = <<>> /\ pos' = pos + 1 /\ UNCHANGED text
TkNext == Read \/ Cut \/ End
TkSpec == TkInit /\ [][TkNext]_tkvars /\ WF_tkvars(TkNext)

Ended == pos > Len(text)

(* C13: the machine yields what the definition says, and the definition has the stated  *)
(* properties: nothing empty, no separator in a token, nothing lost or merged.           *)
MachineExact == Ended => out = Tokenize(text)
NoEmptyToken == \A i \in DOMAIN out : out[i] # <<>>
NoSeparatorInside == \A i \in DOMAIN out : \A j \in DOMAIN out[i] : ~Separator(out[i][j])
NothingLost == Ended =>
  LET kept == SelectSeq(text, LAMBDA c : ~Separator(c)) IN
  (Sigma \notin Rng(text)) => FlattenSeq(out) = Lower(kept)
AsManyAsRuns == Ended => Len(out) = Cardinality({i \in DOMAIN text : ~Separator(text[i]) /\ (i = 1 \/ Separator(text[i - 1]))})
(* Tokenizing the tokens again changes nothing (but for letters whose lower case is      *)
(* written with a mark, and final sigmas).                                               *)
Stable == Ended => \A i \in DOMAIN out : Tokenize(out[i]) = <<out[i]>>
EndsAlways == <>Ended
EmitTokens == ~Ended \/ ~Emit \/ PrintT("@T " \o ToJson(<<text, out>>))
===============================================================================
