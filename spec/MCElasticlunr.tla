----------------------------- MODULE MCElasticlunr -----------------------------
(* Small instances of Elasticlunr for TLC, with the history of what was asked.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CustomLang

CONSTANTS FieldNames, RefNames, Tks, Texts, Refs, Langs, MaxFields, MaxDocs, Emit

VARIABLES stage, lang, decl, refn, save, post, docs, info, hist

MCProcess(lg, tk, v) == Bagged(CustomPipe(lg, LangTokens(lg, tk, v)))
MCTextOf(v) == FoldLeft(LAMBDA a, b : a \o b, "", v)

E == INSTANCE Elasticlunr WITH Process <- MCProcess, TextOf <- MCTextOf

mcvars == <<stage, lang, decl, refn, save, post, docs, info, hist>>

(* The instances of the configurations.                                           *)
TextsSmall == {<<>>, <<"a">>, <<"a", "b", " ", "x">>}
TextsMid == {<<"~">>, <<"a", " ", "a">>, <<"a", "b", " ", "x">>}
TextsWide == {<<>>, <<"a">>, <<"a", " ", "a">>, <<"a", "b", " ", "x">>, <<"a", ",", "b">>}
TextsOne == {<<"a">>}
TextsTwo == {<<>>, <<"a", "b", " ", "x">>}
TextsComma == {<<"a", ",", "b">>, <<"x", " ", "b", ",", "x">>}
TextsBlank == {<<>>, <<" ", "a">>, <<"a", "b">>}
NamesTwo == {"f", "g"}
NamesRef == {"f", "id"}

Adds == SelectSeq(hist, LAMBDA h : h[1] = "add")

Init == /\ \E lg \in Langs : E!EInit(lg)
        /\ hist = <<>>

Log(x) == hist' = Append(hist, x)

Values == UNION {[1..n -> Texts] : n \in 0..Len(decl)}

DoField == \E f \in FieldNames, tk \in Tks :
             Len(decl) < MaxFields /\ E!AddField(f, tk) /\ Log(<<"field", f, tk>>)
DoFieldTwice == \E f \in FieldNames, tk \in Tks : E!AddFieldTwice(f, tk) /\ Log(<<"field", f, tk>>)
DoFields == \E f \in FieldNames, g \in FieldNames :
             Len(decl) + 2 <= MaxFields /\ E!AddFields(<<f, g>>) /\ Log(<<"fields", <<f, g>> >>)
DoFieldsTwice == \E f \in FieldNames, g \in FieldNames : E!AddFieldsTwice(<<f, g>>) /\ Log(<<"fields", <<f, g>> >>)
DoRef == \E f \in RefNames : refn # f /\ E!SetRef(f) /\ Log(<<"ref", f>>)
DoSave == \E v \in BOOLEAN : save # v /\ E!SaveDocs(v) /\ Log(<<"save", v>>)
DoBuild == E!Build /\ Log(<<"build">>)
DoAdd == \E r \in Refs, v \in Values :
           Len(Adds) < MaxDocs /\ E!AddDoc(r, v) /\ Log(<<"add", r, v>>)
DoAddTooLong == \E r \in Refs, v \in [1..Len(decl) + 1 -> {<<"a">>}] :
           E!AddDocTooLong(r, Len(v)) /\ Log(<<"add", r, v>>)

Next == \/ DoField \/ DoFieldTwice \/ DoFields \/ DoFieldsTwice \/ DoRef \/ DoSave \/ DoBuild
        \/ DoAdd \/ DoAddTooLong

Spec == Init /\ [][Next]_mcvars

NoHist == <<stage, lang, decl, refn, save, post, docs, info, Len(Adds)>>

DesignHolds ==
  /\ E!FieldsDistinct /\ E!FieldsHavePostings /\ E!RefNotIndexed /\ E!RefHasNoLength /\ E!NoEmptyToken
  /\ E!OnlyKnownDocs /\ E!PositiveCounts /\ E!InfoOfDocs /\ E!InfoOfFields /\ E!NothingSaved /\ E!ExactWhenSaved
OtherDocsKept == E!OtherDocsKept
NothingForgotten == E!NothingForgotten
SettingsFixed == E!SettingsFixed

(*---------------------- properties over the history ---------------------------*)

(* C01: the listed pairs are those of the additions, counted in the latest one   *)
(* which gave the field a text with the token.                                   *)
GaveToken(i, k, t) == /\ k <= Len(Adds[i][3]) /\ t \in Rng(CustomPipe(lang, LangTokens(lang, decl[k].tk, Adds[i][3][k])))
CountIn(i, k, t) == Counts(CustomPipe(lang, LangTokens(lang, decl[k].tk, Adds[i][3][k])))[t]
HistTokens == UNION {Rng(CustomPipe(lang, LangTokens(lang, decl[k].tk, Adds[i][3][k]))) :
                       <<i, k>> \in {ik \in (DOMAIN Adds) \X (DOMAIN decl) : ik[2] <= Len(Adds[ik[1]][3])}}
PostingsExact ==
  stage = "ready" =>
    \A k \in DOMAIN decl : \A t \in HistTokens \cup Keys(post[decl[k].f]) : \A r \in Refs :
      LET S == {i \in DOMAIN Adds : Adds[i][2] = r /\ GaveToken(i, k, t)}
          listed == t \in Keys(post[decl[k].f]) /\ r \in Keys(post[decl[k].f][t])
      IN IF S = {} \/ t = <<>> \/ decl[k].f = refn THEN ~listed
         ELSE listed /\ post[decl[k].f][t][r] = CountIn(CHOOSE i \in S : \A j \in S : i >= j, k, t)

(* C05/C06: the record and the lengths are those of the latest addition.          *)
RecordExact ==
  stage = "ready" => \A r \in Refs :
    LET S == {i \in DOMAIN Adds : Adds[i][2] = r} IN
    /\ (r \in Keys(docs)) = (S # {})
    /\ S # {} =>
         LET v == Adds[CHOOSE i \in S : \A j \in S : i >= j][3] IN
         /\ docs[r] = IF save THEN E!Record(r, v) ELSE Empty
         /\ \A k \in DOMAIN decl :
              LET G == {i \in S : Len(Adds[i][3]) >= k} IN
              decl[k].f # refn =>
                Opt(GetD(info, r, Empty), decl[k].f)
                  = IF G = {} THEN <<>>
                    ELSE <<Len(CustomPipe(lang, LangTokens(lang, decl[k].tk, Adds[CHOOSE i \in G : \A j \in G : i >= j][3][k])))>>

(* C08: the declarations, straight from the history.                              *)
Of(k) == SelectSeq(hist, LAMBDA h : h[1] = k)
RECURSIVE Declared(_)
Declared(h) == IF h = <<>> THEN <<>>
               ELSE LET x == h[1]  r == Declared(Tail(h)) IN
                    IF x[1] = "field" THEN <<x[2]>> \o r
                    ELSE IF x[1] = "fields" THEN x[2] \o r ELSE r
DeclarationsExact ==
  stage # "panic" =>
    /\ E!Names = Declared(hist)
    /\ refn = IF Of("ref") = <<>> THEN "id" ELSE Of("ref")[Len(Of("ref"))][2]
    /\ save = IF Of("save") = <<>> THEN TRUE ELSE Of("save")[Len(Of("save"))][2]
PanicExact ==
  (stage = "panic") =
    LET d == Declared(hist) IN
    \/ \E i, j \in DOMAIN d : i # j /\ d[i] = d[j]
    \/ \E i \in DOMAIN Adds : Len(Adds[i][3]) > Len(d)

(* C10: an addition repeated changes nothing; additions of different documents    *)
(* commute; C05: saving matters for the stored texts only.                        *)
After(st, r, v) ==
  LET B == [i \in DOMAIN v |-> IF st.decl[i].f # st.refn THEN MCProcess(st.lang, st.decl[i].tk, v[i])
                               ELSE [bag |-> Empty, len |-> 0]]
      X == INSTANCE Elasticlunr WITH Process <- MCProcess, TextOf <- MCTextOf,
             stage <- st.stage, lang <- st.lang, decl <- st.decl, refn <- st.refn, save <- st.save,
             post <- st.post, docs <- st.docs, info <- st.info
  IN [st EXCEPT !.post = X!PostAfter(r, B), !.info = X!InfoAfter(r, B),
                !.docs = Put(st.docs, r, IF st.save THEN X!Record(r, v) ELSE Empty)]
Cur == [stage |-> stage, lang |-> lang, decl |-> decl, refn |-> refn, save |-> save,
        post |-> post, docs |-> docs, info |-> info]
Same(x, y) == x = y
Idempotent == stage = "ready" => \A r \in Refs, v \in Values : After(After(Cur, r, v), r, v) = After(Cur, r, v)
Commute == stage = "ready" => \A r, s \in Refs : r # s =>
              \A v, w \in Values : After(After(Cur, r, v), s, w) = After(After(Cur, s, w), r, v)
SaveOnlyTexts == stage = "ready" => \A r \in Refs, v \in Values :
   LET on == After([Cur EXCEPT !.save = TRUE], r, v)  off == After([Cur EXCEPT !.save = FALSE], r, v) IN
   on.post = off.post /\ on.info = off.info /\ Keys(on.docs) = Keys(off.docs)

(* C02 on the abstract level: what may be read off as document frequency.         *)
LengthsPay == stage = "ready" => \A r \in Keys(info) : \A f \in Keys(info[r]) :
   Len(Adds) = 1 => E!Occurrences(post[f], Keys(post[f]), r) <= info[r][f]

(*------------------------- one test per transition -----------------------------*)

Pairs(m) == {<<k, m[k]>> : k \in Keys(m)}
Shot ==
  [ops |-> hist', stage |-> stage', fields |-> E!DeclNames(decl'), ref |-> refn', save |-> save',
   post |-> {<<f, {<<t, Pairs(post'[f][t])>> : t \in Keys(post'[f])}>> : f \in Keys(post')},
   docs |-> {<<r, Pairs(docs'[r])>> : r \in Keys(docs')},
   info |-> {<<r, Pairs(info'[r])>> : r \in Keys(info')}, lang |-> lang']
EmitTest == ~Emit \/ stage' = "building" \/ PrintT("@T " \o ToJson(Shot))
===============================================================================
