-------------------------------- MODULE English --------------------------------
(* English: tokens, trimmer, stop words, stemmer.                                   *)
EXTENDS Chars, EnglishStemmer

StopCodes == JsonDeserialize(IOEnv.SPECDATA \o "/stopcodes.json")
StopSet(lg) == Rng(StopCodes[lg])
EnglishStops == Rng(StopCodes["en"])

WordUnit(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122 \/ c = 95
EnglishTrim(t) == Trim(t, WordUnit)
EnglishStem(t) == FromUnits(Stem(ToUnits(t)))

(* The three stages on one token: <<>> if it is dropped, else <<result>>.           *)
EnglishStages(t) ==
  LET a == EnglishTrim(t) IN IF a \in EnglishStops THEN <<>> ELSE <<EnglishStem(a)>>
EnglishPipe(ts) == FlattenSeq([i \in DOMAIN ts |-> EnglishStages(ts[i])])
EnglishTokens(text) == EnglishPipe(Tokenize(text))
===============================================================================
