------------------------------- MODULE LangTrace -------------------------------
(* What the tokenizers, stages and pipelines of the built-in languages were seen to   *)
(* do, one result at a time. There is no state between the events: every event is     *)
(* judged by the functions of Languages.                                              *)
EXTENDS TraceBase, Languages

Init == TInit

(* All rows satisfy a condition; the first that does not is shown with what was due.  *)
AllRows(what, rows, Good(_), Want(_)) ==
  LET bad == {i \in DOMAIN rows : ~Good(rows[i])} IN
  IF bad = {} THEN TRUE
  ELSE LET i == CHOOSE i \in bad : \A j \in bad : i <= j IN
       Expect(what, FALSE, rows[i], Want(rows[i]))

(* C13 *)
DoTok == /\ IsEvent("tok") /\ Ev.lang \notin Segmented
         /\ AllRows("tokens of " \o Ev.lang, Ev.r, LAMBDA x : x[2] = Tokenize(x[1]), LAMBDA x : Tokenize(x[1]))

(* Separators, case mapping of every code point.                                      *)
Separators == CharData.separators
DoTokSweep == /\ IsEvent("toksweep") /\ Ev.lang \notin Segmented
              /\ Equal("separators", Ev.split, Separators)
              /\ Equal("case mapping", Ev.lower, CharData.lower)
              /\ Equal("neither separator nor part of a token", Ev.odd, <<>>)

(* Of very many texts only those are shown which are not one token, or two if twice.   *)
DoTokGrid == /\ IsEvent("tokgrid") /\ Ev.lang \notin Segmented
             /\ Equal("number of texts", Ev.n, Ev.given)
             /\ AllRows("tokens of " \o Ev.lang, Ev.r, LAMBDA x : x[2] = Tokenize(x[1]), LAMBDA x : Tokenize(x[1]))

(* C14, C15, C17, C18, C19: one stage.                                                *)
TrimName(lg) == IF lg = "en" THEN "trimmer" ELSE "trimmer-" \o lg
StopName(lg) == IF lg = "en" THEN "stopWordFilter" ELSE "stopWordFilter-" \o lg
StemName(lg) == IF lg = "en" THEN "stemmer" ELSE "stemmer-" \o lg

StageWant(lg, st, t) ==
  IF lg = "en" THEN
    IF st = "trimmer" THEN <<EnglishTrim(t)>>
    ELSE IF st = "stopWordFilter" THEN StopStage("en", t)
    ELSE <<Stem(t)>>
  ELSE IF lg = "ar" THEN ArabicStage(t)
  ELSE IF st = TrimName(lg) THEN TrimStage(lg, t)
  ELSE StopStage(lg, t)

(* The English trimmer may drop a token of which nothing remains, as it is a stop      *)
(* word; and for Arabic the deviation is written down.                                 *)
Deviates(x) == Ev.lang = "ar" /\ x[2] # ArabicStage(x[1]) /\ x[2] = ArabicDeviation(x[1])
StageGood(x) ==
  \/ x[2] = StageWant(Ev.lang, Ev.stage, x[1])
  \/ Ev.stage = "trimmer" /\ x[2] = <<>> /\ EnglishTrim(x[1]) = <<>>
  \/ Deviates(x)

DoStage == /\ IsEvent("stage") /\ Ev.stage \in {TrimName(Ev.lang), StopName(Ev.lang), StemName(Ev.lang)}
           /\ AllRows(Ev.stage, Ev.r, StageGood, LAMBDA x : StageWant(Ev.lang, Ev.stage, x[1]))
           /\ IF \E i \in DOMAIN Ev.r : Deviates(Ev.r[i])
              THEN PrintT("@K " \o ToJson([id |-> "C19-alef", what |-> Ev.stage])) ELSE TRUE

(* Of very many words only those are shown which did not come out as they went in.     *)
DoWords == /\ IsEvent("words") /\ Ev.stage \in {TrimName(Ev.lang), StopName(Ev.lang)} \cup (IF Ev.lang \in {"ar", "en"} THEN {StemName(Ev.lang)} ELSE {})
           /\ Equal("number of words", Ev.n, Ev.given)
           /\ AllRows(Ev.stage, Ev.r, StageGood, LAMBDA x : StageWant(Ev.lang, Ev.stage, x[1]))

(* Every code point at both ends of a word and alone.                                  *)
DoTrimSweep ==
  /\ IsEvent("trimsweep") /\ Ev.stage = TrimName(Ev.lang)
  /\ Equal("kept in front of a word", Ev.front, WordRanges(Ev.lang))
  /\ Equal("kept behind a word", Ev.back, WordRanges(Ev.lang))
  /\ Equal("kept alone", Ev.alone, WordRanges(Ev.lang))
  /\ Equal("neither kept nor stripped, or changed inside a word", Ev.odd, <<>>)
  /\ Ev.lang # "en" => Equal("left empty", Ev.blank, 0)

(* Every sequence of some letters around words and alone.                              *)
DoTrimGrid ==
  /\ IsEvent("trimgrid") /\ Ev.stage = TrimName(Ev.lang)
  /\ Equal("letters that stay", Rng(Ev.kept), {c \in Rng(Ev.letters) : WordChar(Ev.lang, c)})
  /\ Equal("wrongly trimmed", Ev.odd, <<>>)

(* Every code point between two words and alone.                                       *)
DoMapSweep ==
  /\ IsEvent("mapsweep")
  /\ LET seen == {<<x[1], x[2], x[3]>> : x \in Rng(Ev.map)}
         w == Ev.w
         want ==
           IF Ev.lang = "ar" THEN
             {<<c, <<w \o w>>, <<>>>> : c \in Marks} \cup {<<c, <<w \o <<Alef>> \o w>>, << <<Alef>> >> >> : c \in AlefForms}
           ELSE {<<t[1], <<w \o t \o w>>, <<>>>> : t \in {u \in StopSet(Ev.lang) : Len(u) = 1}}
     IN Expect("changed characters", seen = want, seen \ want, want \ seen)

(* C24: the whole pipeline. A row is token, result, and what reached the stemmer with   *)
(* its reference stem.                                                                  *)
RowWant(lg, x) ==
  CASE lg = "en" -> EnglishStages(x[1])
    [] lg = "ar" -> ArabicStage(x[1])
    [] OTHER -> LET b == BeforeStem(lg, x[1]) IN
                IF b = <<>> THEN <<>>
                ELSE IF lg \in Unstemmed THEN b
                ELSE IF x[3] = <<>> THEN << <<"the stemmer is not reached">> >>
                ELSE Some1(x[3][2])
Reached(lg, x) == lg \in {"en", "ar"} \/ x[3] = <<>> \/ <<x[3][1]>> = BeforeStem(lg, x[1])
ArRow(x) == Ev.lang = "ar" /\ x[2] = ArabicDeviation(x[1])
DoRun == /\ IsEvent("lr")
         /\ AllRows("what reaches the stemmer", Ev.rows, LAMBDA x : Reached(Ev.lang, x), LAMBDA x : BeforeStem(Ev.lang, x[1]))
         /\ AllRows("composition of the stages", Ev.rows, LAMBDA x : x[2] = RowWant(Ev.lang, x) \/ ArRow(x), LAMBDA x : RowWant(Ev.lang, x))
         /\ Equal("result of the pipeline", Ev.out, FlattenSeq([i \in DOMAIN Ev.rows |-> Ev.rows[i][2]]))

(* Of very many tokens only those are shown for which the pipeline did something else.  *)
DoRunGrid == /\ IsEvent("lrgrid") /\ Ev.lang \notin {"en", "ar"}
             /\ Equal("number of tokens", Ev.n, Ev.given)
             /\ AllRows("what reaches the stemmer", Ev.rows, LAMBDA x : Reached(Ev.lang, x), LAMBDA x : BeforeStem(Ev.lang, x[1]))
             /\ AllRows("composition of the stages", Ev.rows, LAMBDA x : x[2] = RowWant(Ev.lang, x), LAMBDA x : RowWant(Ev.lang, x))

(* C21 *)
DoSeg ==
  /\ IsEvent("seg")
  /\ Equal("segments", Ev.out,
       IF Ev.lang = "zh" THEN [i \in DOMAIN Ev.words |-> Ev.words[i][1]]
       ELSE LET k == SelectSeq(Ev.words, LAMBDA x : x[2] \notin LeftOut) IN [i \in DOMAIN k |-> k[i][1]])

(* C16 *)
DoFuzz ==
  /\ IsEvent("fuzz")
  /\ Equal("texts that make it panic", Ev.panics, <<>>)
  /\ Equal("texts with empty tokens", Ev.empty, <<>>)
  /\ Equal("invalid JSON", Ev.badjson, <<>>)

(* C27: the building blocks of lang::common, with words and letters of the caller.     *)
BlockName == Equal("name", Rng(Ev.got), {Ev.name})
DoStopBlock ==
  /\ IsEvent("stopblock") /\ BlockName
  /\ LET S == Rng(Ev.words)  Want(x) == IF x[1] \in S THEN <<>> ELSE <<x[1]>> IN
       /\ AllRows("stop words", Ev.r, LAMBDA x : x[2] = Want(x), Want)
       /\ Equal("stop words of a clone", Ev.copy, Ev.r)
DoTrimBlock ==
  /\ IsEvent("trimblock") /\ BlockName
  /\ LET Want(x) == Some1(Trim(x[1], LAMBDA c : InRanges(c, Ev.ranges))) IN
       /\ AllRows("trimmed", Ev.r, LAMBDA x : x[2] = Want(x), Want)
       /\ Equal("trimmed by a clone", Ev.copy, Ev.r)
DoStemBlock ==
  /\ IsEvent("stemblock") /\ BlockName
  /\ AllRows("stems", Ev.r, LAMBDA x : x[2] = Some1(x[3]), LAMBDA x : Some1(x[3]))

(* A user's pipeline and language, put together from blocks. What a stemmer makes of   *)
(* what reaches it is given; what reaches it is not.                                    *)
BlockStage(st, t) ==
  CASE st.k = "stop" -> IF t \in st.words THEN <<>> ELSE <<t>>
    [] st.k = "trim" -> Some1(Trim(t, LAMBDA c : InRanges(c, st.ranges)))
    [] st.k = "stem" -> LET S == {i \in DOMAIN st.stems : st.stems[i][1] = t} IN
                        IF S = {} THEN << <<-1>> >> ELSE Some1(st.stems[CHOOSE i \in S : TRUE][2])
    [] st.k = "fn"   -> IF t # <<>> /\ t[1] = 120 THEN <<>> ELSE <<Append(t, 43)>>
RECURSIVE ThroughBlocks(_, _)
ThroughBlocks(sts, t) ==
  IF sts = <<>> THEN <<t>>
  ELSE LET r == BlockStage(sts[1], t) IN IF r = <<>> THEN <<>> ELSE ThroughBlocks(Tail(sts), r[1])
AllThroughBlocks(sts, ts) == FlattenSeq([i \in DOMAIN ts |-> ThroughBlocks(sts, ts[i])])
Prepared == TLCEval([i \in DOMAIN Ev.stages |-> [Ev.stages[i] EXCEPT !.words = Rng(@)]])
DoChain ==
  /\ IsEvent("chain")
  /\ Equal("name of the language", Ev.lang, "Assembled")
  /\ Equal("names of the stages", <<Ev.names, Ev.ser>>, LET n == [i \in DOMAIN Ev.stages |-> Ev.stages[i].name] IN <<n, n>>)
  /\ LET sts == Prepared
         Want(x) == AllThroughBlocks(sts, x[1])
         ts == SelectSeq(AllThroughBlocks(sts, Ev.text), LAMBDA t : t # <<>>)  n == Counts(ts)
     IN /\ AllRows("result of the pipeline", Ev.runs, LAMBDA x : x[2] = Want(x), Want)
        /\ Equal("postings", {<<x[1], x[2]>> : x \in Rng(Ev.posted)}, {<<t, n[t]>> : t \in Keys(n)})

DoGroup == IsEvent("group")

Next == DoGroup \/ DoStopBlock \/ DoTrimBlock \/ DoStemBlock \/ DoChain \/ DoTok \/ DoTokSweep \/ DoTokGrid \/ DoStage \/ DoWords \/ DoTrimSweep \/ DoTrimGrid \/ DoMapSweep \/ DoRun \/ DoRunGrid \/ DoSeg \/ DoFuzz \/ Done
Spec == Init /\ [][Next]_<<tid, l>>
===============================================================================
