------------------------------- MODULE IndexTrace ------------------------------
(* Recorded histories of IndexBuilder and Index against Elasticlunr. PROP selects   *)
(* what is compared at an observation.                                              *)
EXTENDS TraceBase, CustomLang, English, Registry

VARIABLES stage, lang, decl, refn, save, post, docs, info,
          memo,   \* what has been seen for what, for the properties that compare observations
          aside,  \* other indexes of the history: number -> state
          cur,    \* number of the current one
          told    \* reference -> field -> texts given so far

(* The tokens of a recorded value, by the way it was recorded: characters and       *)
(* custom tokenizers, runs of repeated tokens, code points of English text, or       *)
(* tokens that were computed by calling the language itself.                        *)
RunBag(ts, ns) == [t \in Rng(ts) |->
                    LET S == {i \in DOMAIN ts : ts[i] = t} IN
                    FoldSet(LAMBDA i, a : a + ns[i], 0, S)]
PipeOne(lg, t) == LET r == CustomPipe(lg, <<t>>) IN r
RunTokens(lg, tk, c) ==
  LET raw == [i \in DOMAIN c |-> PipeOne(lg, LangTokens(lg, tk, c[i][1])[1])]
      kept == SelectSeq([i \in DOMAIN c |-> <<raw[i], c[i][2]>>], LAMBDA x : x[1] # <<>>)
      ts == [i \in DOMAIN kept |-> kept[i][1][1]]
      ns == [i \in DOMAIN kept |-> kept[i][2]]
  IN [bag |-> RunBag(ts, ns), len |-> FoldSet(LAMBDA i, a : a + ns[i], 0, DOMAIN ns)]

(* The tokens p0, p1, .. p(n-1), which stay as they are.                            *)
Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<Digit[n + 1]>> ELSE Append(Digits(n \div 10), Digit[(n % 10) + 1])

TraceProcess(lg, tk, v) ==
  CASE v.k = "c"    -> Bagged(CustomPipe(lg, LangTokens(lg, tk, v.c)))
    [] v.k = "runs" -> RunTokens(lg, tk, v.c)
    [] v.k = "cp"   -> Bagged(EnglishTokens(v.c))
    [] v.k = "bag"  -> [bag |-> [t \in {x[1] : x \in Rng(v.c)} |-> (CHOOSE x \in Rng(v.c) : x[1] = t)[2]],
                         len |-> FoldSet(LAMBDA i, a : a + v.c[i][2], 0, DOMAIN v.c)]
    [] v.k = "uniq" -> [bag |-> [t \in {CustomPipe(lg, <<v.c \o Digits(i)>>)[1] : i \in 0..v.n - 1} |-> 1], len |-> v.n]
TraceTextOf(v) == v.s

X == INSTANCE JsonLayout WITH Process <- TraceProcess, TextOf <- TraceTextOf

evars == <<stage, lang, decl, refn, save, post, docs, info>>
tvars == <<tid, l, stage, lang, decl, refn, save, post, docs, info, memo, aside, cur, told>>

LangName == Described[lang].name
LangStages == Described[lang].stages

(*-------------------------------- observations --------------------------------*)

(* A dump as maps. Node lists are [path, df, [[doc, n]..]].                         *)
SeenDocs(n) == {<<x[1], x[2]>> : x \in Rng(n[3])}
SeenNodes(ns) == {<<n[1], n[2], SeenDocs(n)>> : n \in Rng(ns)}
SeenPostings(ns) == UNION {{<<n[1], x[1], x[2]>> : x \in Rng(n[3])} : n \in Rng(ns)}
WantPostings(p) == UNION {{<<t, d, p[t][d]>> : d \in Keys(p[t])} : t \in Keys(p)}
WantNodes(p) == {<<t, Cardinality(Keys(GetD(p, t, Empty))), {<<d, p[t][d]>> : d \in Keys(GetD(p, t, Empty))}>> : t \in X!Nodes(p)}
NoRepeats(ns) == NoDup([i \in DOMAIN ns |-> ns[i][1]]) /\ \A n \in Rng(ns) : NoDup([i \in DOMAIN n[3] |-> n[3][i][1]])

SeenFields(o) == [i \in DOMAIN o.index |-> o.index[i][1]]
IndexMembers(o) == Equal("members of index", Rng(SeenFields(o)), Keys(post)) /\ NoDup(SeenFields(o))

PostingsMatch(o) ==
  /\ IndexMembers(o)
  /\ Holds(\A x \in Rng(o.index) :
       /\ Expect("repeated members", NoRepeats(x[2]), x[1], "none")
       /\ Equal("postings of " \o x[1], SeenPostings(x[2]), WantPostings(post[x[1]])))

(* Only the pairs, without the counts.                                              *)
DfMatch(o) ==
  Holds(\A x \in Rng(o.index) : \A n \in Rng(x[2]) :
    Expect("document frequency", n[2] = Len(n[3]) /\ NoDup([i \in DOMAIN n[3] |-> n[3][i][1]]), n, "the number of listed documents"))

SeenInfo(o) == {<<x[1], {<<y[1], y[2]>> : y \in Rng(x[2])}>> : x \in Rng(o.store.info)}
WantInfo == {<<r, {<<f, info[r][f]>> : f \in Keys(info[r])}>> : r \in Keys(info)}
InfoMatch(o) == Equal("field lengths", SeenInfo(o), WantInfo)

SeenStore(o) == {<<x[1], {<<y[1], y[2]>> : y \in Rng(x[2])}>> : x \in Rng(o.store.docs)}
WantStore == {<<r, {<<n, docs[r][n]>> : n \in Keys(docs[r])}>> : r \in Keys(docs)}
StoreMatch(o) == Equal("stored documents", SeenStore(o), WantStore)

CountMatch(o) ==
  /\ Equal("length", o.store.len, X!Count)
  /\ Equal("references", {x[1] : x \in Rng(o.store.docs)}, Keys(docs))
  /\ NoDup([i \in DOMAIN o.store.docs |-> o.store.docs[i][1]])
  /\ Expect("lengths of absent documents", {x[1] : x \in Rng(o.store.info)} \subseteq Keys(docs),
            {x[1] : x \in Rng(o.store.info)}, Keys(docs))

SettingsMatch(o) ==
  /\ Equal("fields", o.fields, X!Names)
  /\ Equal("get_fields", o.get, X!Names)
  /\ Equal("ref", o.ref, refn)
  /\ Equal("save", o.store.save, save)

(* C04: what the index holds about a document and a field is a function of the      *)
(* texts given to that field of that document.                                      *)
Held(o, r, f) ==
  [postings |-> UNION {{<<n[1], x[2]>> : x \in {y \in Rng(n[3]) : y[1] = r}} :
                         n \in UNION {Rng(x[2]) : x \in {y \in Rng(o.index) : y[1] = f}}},
   len |-> UNION {{y[2] : y \in {z \in Rng(x[2]) : z[1] = f}} : x \in {y \in Rng(o.store.info) : y[1] = r}},
   text |-> UNION {{y[2] : y \in {z \in Rng(x[2]) : z[1] = f}} : x \in {y \in Rng(o.store.docs) : y[1] = r}}]
TkOf(f) == decl[CHOOSE i \in DOMAIN decl : decl[i].f = f].tk
Given(r, f) == <<lang, TkOf(f), f = refn, save, GetD(GetD(told, r, Empty), f, <<>>),
                 LET d == GetD(docs, r, Empty) IN f \in Keys(d) >>
HeldNow(o) == {<<Given(r, f), Held(o, r, f)>> : r \in Keys(docs), f \in Rng(X!Names)}
Separate(o) ==
  LET new == HeldNow(o)  all == memo \cup new IN
  /\ Expect("the same texts are held differently", Cardinality({x[1] : x \in all}) = Cardinality(all),
            {x \in new : \E y \in all : x[1] = y[1] /\ x[2] # y[2]}, "one observation for each")
  /\ memo' = all

(* C05: what is held with and without saving.                                       *)
Unsaved(o) == <<{<<x[1], SeenNodes(x[2])>> : x \in Rng(o.index)}, SeenInfo(o), o.store.len>>
SaveTwin(o) ==
  LET key == <<lang, decl, refn, post, info, Keys(docs)>>
      all == memo \cup {<<key, Unsaved(o)>>} IN
  /\ Expect("saving changes more than the texts", \A x \in memo : x[1] = key => x[2] = Unsaved(o), o.store.save, "no difference")
  /\ memo' = all

FullMatch(o) == PostingsMatch(o) /\ InfoMatch(o)

DumpMatches(o) ==
  CASE Prop = "C01" -> PostingsMatch(o) /\ UNCHANGED memo
    [] Prop = "C02" -> DfMatch(o) /\ UNCHANGED memo
    [] Prop = "C04" -> Separate(o)
    [] Prop = "C05" -> StoreMatch(o) /\ SaveTwin(o)
    [] Prop = "C06" -> InfoMatch(o) /\ UNCHANGED memo
    [] Prop = "C07" -> CountMatch(o) /\ UNCHANGED memo
    [] Prop = "C08" -> SettingsMatch(o) /\ PostingsMatch(o) /\ StoreMatch(o) /\ UNCHANGED memo
    [] Prop = "C20" -> /\ Equal("lang", o.lang, LangName) /\ Equal("pipeline", o.pipeline, LangStages) /\ UNCHANGED memo
    [] Prop \in {"C22", "C25", "C26"} -> FullMatch(o) /\ UNCHANGED memo
    [] Prop = "C28" -> /\ FullMatch(o) /\ StoreMatch(o) /\ CountMatch(o) /\ SettingsMatch(o)
                       /\ Equal("lang", o.lang, LangName) /\ Equal("pipeline", o.pipeline, LangStages) /\ UNCHANGED memo

(*---------------------------------- actions ------------------------------------*)

Init == TInit /\ X!EInit("rw") /\ memo = {} /\ told = Empty /\ aside = Empty /\ cur = 0

Begin == IsEvent("begin") /\ X!Restart(Ev.lang) /\ told' = Empty /\ UNCHANGED <<memo, aside, cur>>
Keep == UNCHANGED <<memo, told, aside, cur>>
DoNew == IsEvent("new") /\ X!New(Ev.lang, Ev.fs) /\ stage' = "ready" /\ told' = Empty /\ UNCHANGED <<memo, aside, cur>>
DoField == IsEvent("field") /\ X!AddField(Ev.f, Ev.tk) /\ Keep
DoFields == IsEvent("fields") /\ X!AddFields(Ev.fs) /\ Keep
DoRef == IsEvent("ref") /\ X!SetRef(Ev.f) /\ Keep
DoSave == IsEvent("save") /\ X!SaveDocs(Ev.v) /\ Keep
DoBuild == IsEvent("build") /\ X!Build /\ Keep

Tell(r, v) == Put(told, r, [f \in {decl[i].f : i \in DOMAIN v} |->
                 LET i == CHOOSE i \in DOMAIN v : decl[i].f = f IN Append(GetD(GetD(told, r, Empty), f, <<>>), v[i].s)]
              @@ GetD(told, r, Empty))
(* A tokenizer of the user that panics.                                             *)
Booms(n) == \E i \in DOMAIN decl : i <= n /\ decl[i].tk = "boom" /\ decl[i].f # refn
DoAdd == /\ IsEvent("add") /\ ~Booms(Len(Ev.v)) /\ X!AddDoc(Ev.r, Ev.v)
         /\ told' = IF Prop = "C04" THEN Tell(Ev.r, Ev.v) ELSE told
         /\ UNCHANGED <<memo, aside, cur>>

(* Many new documents with the same values at once.                                 *)

ManyRefs(p, n) == {p \o ToString(i) : i \in 0..n - 1}

DoAddMany ==
  /\ IsEvent("addmany") /\ stage = "ready"
  /\ LET R == ManyRefs(Ev.p, Ev.n)
         B == [i \in DOMAIN Ev.v |-> TraceProcess(lang, decl[i].tk, Ev.v[i])]
     IN
       /\ R \cap Keys(docs) = {}
       /\ refn \notin X!Declared(decl) /\ Ev.v # <<>>
       /\ post' = [f \in Keys(post) |->
            IF \E i \in DOMAIN B : decl[i].f = f
            THEN LET b == B[CHOOSE i \in DOMAIN B : decl[i].f = f].bag
                     ts == Keys(b) \ {<<>>} IN
                 [t \in Keys(post[f]) \cup ts |->
                    IF t \in ts THEN [r \in R |-> b[t]] @@ GetD(post[f], t, Empty) ELSE post[f][t]]
            ELSE post[f]]
       /\ info' = [r \in R |-> [f \in {decl[i].f : i \in DOMAIN B} |-> B[CHOOSE i \in DOMAIN B : decl[i].f = f].len]] @@ info
       /\ docs' = [r \in R |-> IF save THEN X!Record(r, Ev.v) ELSE Empty] @@ docs
  /\ UNCHANGED <<stage, lang, decl, refn, save>>
  /\ Keep

DoPanic ==
  /\ IsEvent("panic") /\ Keep
  /\ \/ Ev.in = "field" /\ X!AddFieldTwice(Ev.f, Ev.tk)
     \/ Ev.in = "fields" /\ X!AddFieldsTwice(Ev.fs)
     \/ Ev.in = "add" /\ X!AddDocTooLong("", Ev.n)
     \/ Ev.in = "add" /\ stage = "ready" /\ Booms(Ev.n) /\ X!Panic
     \/ Ev.in = "new" /\ ~X!Distinct(X!Fields(<<>>, Ev.fs)) /\ X!Panic

DoDump == IsEvent("dump") /\ stage = "ready" /\ DumpMatches(Ev) /\ UNCHANGED evars /\ UNCHANGED <<told, aside, cur>>

DoSum ==
  /\ IsEvent("sum") /\ stage = "ready" /\ UNCHANGED evars /\ Keep
  /\ Holds(\A x \in Rng(Ev.index) : \A n \in Rng(x[2]) : Expect("document frequency", n[2] = n[3], n, "the number of listed documents"))
  /\ Prop = "C01" =>
       Holds(\A x \in Rng(Ev.index) : Equal("listed documents", {<<n[1], n[3]>> : n \in Rng(x[2])},
          {<<t, Cardinality(Keys(GetD(post[x[1]], t, Empty)))>> : t \in X!Nodes(post[x[1]])}))
  /\ Prop = "C07" => Equal("length", Ev.len, X!Count) /\ Equal("documents", Ev.ndocs, X!Count)

(* The number of tokens, of postings, and of occurrences.                           *)
Sum(S, F(_)) == FoldSet(LAMBDA x, a : a + F(x), 0, S)
DoExtent ==
  /\ IsEvent("extent") /\ stage = "ready" /\ UNCHANGED evars /\ Keep
  /\ Equal("tokens, postings and occurrences per field", Rng(Ev.per),
       {<<f, Cardinality(Keys(post[f])),
          Sum(Keys(post[f]), LAMBDA t : Cardinality(Keys(post[f][t]))),
          Sum(Keys(post[f]), LAMBDA t : Sum(Keys(post[f][t]), LAMBDA d : post[f][t][d]))>> : f \in Keys(post)})

(* Several indexes of one process, worked on in turn. They know nothing of each     *)
(* other.                                                                            *)
Now == [stage |-> stage, lang |-> lang, decl |-> decl, refn |-> refn, save |-> save, post |-> post, docs |-> docs, info |-> info]
DoUse ==
  /\ IsEvent("use") /\ Ev.k # cur
  /\ X!Becomes(IF Ev.k \in Keys(aside) THEN aside[Ev.k].st ELSE X!Fresh(Ev.lang))
  /\ told' = IF Ev.k \in Keys(aside) THEN aside[Ev.k].told ELSE Empty
  /\ aside' = Put(aside, cur, [st |-> Now, told |-> told]) /\ cur' = Ev.k
  /\ UNCHANGED memo

DoJson ==
  /\ IsEvent("json") /\ stage = "ready" /\ UNCHANGED evars /\ Keep
  /\ Equal("to_json and to_json_pretty agree", Ev.same, TRUE)
  /\ Equal("valid JSON", Ev.valid, TRUE)
  /\ Expect("repeated leaves", NoDup(Ev.leaves), Len(Ev.leaves), Cardinality(Rng(Ev.leaves)))
  /\ LET seen == Rng(Ev.leaves)  want == X!Leaves(LangName, LangStages) IN
     Expect("leaves", seen = want, seen \ want, want \ seen)

(* C10: the bytes are a function of the content.                                    *)
Content == <<lang, X!Names, refn, save, post, docs, info>>
DoSer ==
  /\ IsEvent("ser") /\ stage = "ready" /\ UNCHANGED evars /\ UNCHANGED <<told, aside, cur>>
  /\ LET all == memo \cup {<<Content, Ev.h>>} IN
       /\ Expect("different bytes for the same content", \A x \in all : x[1] = Content => x[2] = Ev.h, Ev.h, "one serialization")
       /\ memo' = all

(* C11, with the deviations of this tree: an index whose language processes tokens   *)
(* cannot be read back, because the names of its pipeline stages are never consumed,  *)
(* nor one of a language that the registry does not know; and the JSON reader gives up at 128 levels of nesting.                             *)
TooDeep == \E f \in Keys(post) : \E t \in Keys(post[f]) : Len(t) >= 118
DoReload ==
  /\ IsEvent("reload") /\ stage = "ready" /\ UNCHANGED evars /\ Keep
  /\ IF Ev.ok THEN /\ Equal("reloaded index", Ev.same, TRUE)
                   /\ Ev.moved > 0 => PrintT("@K " \o ToJson([id |-> "C11-float", what |-> "index"]))
     ELSE IF \/ LangStages # <<>> /\ Ev.msg = "trailing characters"
             \/ lang \in {"rw", "tg"} /\ Len(Ev.msg) > 12 /\ SubSeq(Ev.msg, 1, 12) = "invalid type"
     THEN PrintT("@K " \o ToJson([id |-> "C11-index", what |-> lang]))
     ELSE /\ Expect("loading fails", TooDeep, Ev.msg, "the index")
          /\ PrintT("@K " \o ToJson([id |-> "C11-depth", what |-> "index"]))

(* What follows was seen with any of the characters of a group; it begins anew.     *)
DoGroup == IsEvent("group") /\ UNCHANGED evars /\ UNCHANGED <<memo, told>> /\ aside' = Empty /\ cur' = 0

Next == \/ Begin \/ DoGroup \/ DoNew \/ DoField \/ DoFields \/ DoRef \/ DoSave \/ DoBuild \/ DoAdd \/ DoAddMany
        \/ DoPanic \/ DoDump \/ DoSum \/ DoExtent \/ DoUse \/ DoJson \/ DoSer \/ DoReload
        \/ (Done /\ UNCHANGED <<stage, lang, decl, refn, save, post, docs, info, memo, aside, cur, told>>)

Spec == Init /\ [][Next]_tvars

(* The invariants of the design hold along every recorded history.                  *)
DesignHolds ==
  /\ X!FieldsDistinct /\ X!FieldsHavePostings /\ X!RefNotIndexed /\ X!RefHasNoLength /\ X!NoEmptyToken
  /\ X!InfoOfDocs /\ X!InfoOfFields /\ X!NothingSaved /\ X!ExactWhenSaved
===============================================================================
