------------------------------- MODULE Languages -------------------------------
(* The built-in languages: tokenizing, trimming, stop words, and how the stages are  *)
(* composed. The Snowball stemmers and the segmenters of Chinese and Japanese are     *)
(* libraries; here they are given functions.                                          *)
EXTENDS English, Arabic, Registry

Segmented == {"zh", "ja"}
Trimmed == Keys(Builtin) \ {"en", "ar"}
Stopped == Keys(Builtin) \ {"ar", "ja"}
Unstemmed == {"ko", "zh", "ja"}

WordClass(lg) == IF lg \in {"en", "ru", "ko", "zh", "ja"} THEN lg ELSE "latin"
WordRanges(lg) == CharData.word[WordClass(lg)]
WordChar(lg, c) == InRanges(c, WordRanges(lg))

(* Stages: <<>> drops the token.                                                      *)
TrimStage(lg, t) == Some1(Trim(t, LAMBDA c : WordChar(lg, c)))
StopStage(lg, t) == IF t \in StopSet(lg) THEN <<>> ELSE <<t>>

(* What reaches the stemmer of a language with a trimmer.                             *)
BeforeStem(lg, t) ==
  LET a == TrimStage(lg, t) IN
  IF a = <<>> \/ lg \notin Stopped THEN a ELSE StopStage(lg, a[1])

(* Japanese parts of speech that are not tokens.                                      *)
LeftOut == {"助詞", "助動詞", "記号", "UNK"}
===============================================================================
