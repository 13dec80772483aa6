------------------------------ MODULE CustomLang -------------------------------
(* The user-supplied languages and tokenizers of the harness. Characters are      *)
(* strings of one character.                                                      *)
EXTENDS Text

Spaces(c) == c = " "
Commas(c) == c = ","

Prefix(p, ts) == [i \in DOMAIN ts |-> <<p>> \o ts[i]]

CustomTokens(tk, c) ==
  CASE tk = "lang"  -> SplitKeep(c, Spaces)
    [] tk = "comma" -> SplitKeep(c, Commas)
    [] tk = "whole" -> <<c>>
    [] tk = "none"  -> <<>>
    [] tk = "inner" -> SelectSeq(SplitKeep(c, Spaces), LAMBDA t : t # <<>>)
    [] tk = "pre:q" -> Prefix("q", SplitKeep(c, Spaces))
    [] tk = "pre:x" -> Prefix("x", SplitKeep(c, Spaces))
    [] tk = "pre:é" -> Prefix("é", SplitKeep(c, Spaces))

(* What a field without a tokenizer of its own gets from the language.            *)
LangTokens(lg, tk, c) == IF tk = "lang" /\ lg = "t3" THEN SplitKeep(c, Commas) ELSE CustomTokens(tk, c)

CustomStage(t) == IF t = <<"~">> THEN <<>> ELSE Append(t, "+")
NotY(t) == t = <<>> \/ t[1] # "y"
NotX(t) == t = <<>> \/ t[1] # "x"

CustomPipe(lg, ts) ==
  CASE lg \in {"rw", "m1", "m3", "m9"} -> ts
    [] lg \in {"tg", "m2", "m4", "m5", "m6", "m7", "m8", "t3", "t5"} -> LET kept == SelectSeq(ts, NotX) IN [i \in DOMAIN kept |-> CustomStage(kept[i])]
    [] lg \in {"t2", "t4"} -> LET kept == SelectSeq(ts, NotY) IN [i \in DOMAIN kept |-> Append(kept[i], "*")]

Bagged(ts) == [bag |-> Counts(ts), len |-> Len(ts)]
===============================================================================
