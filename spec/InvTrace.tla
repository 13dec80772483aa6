-------------------------------- MODULE InvTrace -------------------------------
(* Recorded histories of an InvertedIndex. Frequencies are the shortest decimal form  *)
(* of the floating point number, tokens are code points.                              *)
EXTENDS TraceBase

VARIABLES nodes, post

I == INSTANCE InvertedIndex WITH Docs <- {}, Tokens <- {}, Freqs <- {}

ivars == <<nodes, post>>

(* One answer of has_token, get_docs, get_doc_frequency and get_term_frequency.       *)
HasMatches(q) == Equal("has_token", q.has, I!HasToken(q.t))
DocsMatch(q) ==
  /\ Equal("get_docs is some", q.some, I!HasToken(q.t))
  /\ Equal("get_docs", {<<x[1], x[2]>> : x \in Rng(q.docs)}, {<<d, I!DocsOf(q.t)[d]>> : d \in Keys(I!DocsOf(q.t))})
TfMatches(q) == Holds(\A x \in Rng(q.tfs) : Equal("get_term_frequency", x[2], GetD(I!DocsOf(q.t), x[1], "0.0")))
DfMatches(q) == /\ Equal("get_doc_frequency", q.df, I!DocFrequency(q.t))
                /\ Equal("get_doc_frequency and get_docs", q.df, Len(q.docs))

AnswerMatches(q) ==
  IF Prop = "C02" THEN DfMatches(q) ELSE HasMatches(q) /\ DocsMatch(q) /\ TfMatches(q)

SeenNodes == {<<n[1], {<<x[1], x[2]>> : x \in Rng(n[3])}>> : n \in Rng(Ev.nodes)}
WantNodes == {<<t, {<<d, I!DocsOf(t)[d]>> : d \in Keys(I!DocsOf(t))}>> : t \in nodes}
DumpMatches ==
  IF Prop = "C02"
  THEN Holds(\A n \in Rng(Ev.nodes) : /\ Equal("df of a node and its docs", n[2], Len(n[3]))
                                      /\ Equal("df of a node", n[2], I!DocFrequency(n[1])))
  ELSE /\ Equal("nodes", SeenNodes, WantNodes)
       /\ Expect("repeated nodes", NoDup([i \in DOMAIN Ev.nodes |-> Ev.nodes[i][1]]), Ev.nodes, "none")

Init == TInit /\ I!IInit
DoAdd == IsEvent("add") /\ I!AddToken(Ev.d, Ev.t, Ev.f)
ManyDocs(p, n) == {p \o ToString(i) : i \in 0..n - 1}
DoAddMany == /\ IsEvent("addmany")
             /\ nodes' = nodes \cup Prefixes(Ev.t)
             /\ post' = IF Ev.t = <<>> \/ Ev.n = 0 THEN post
                        ELSE Put(post, Ev.t, [d \in ManyDocs(Ev.p, Ev.n) |-> Ev.f] @@ I!DocsOf(Ev.t))
(* Summaries of large indexes.                                                              *)
Listed(t) == Cardinality(Keys(I!DocsOf(t)))
DoSum == /\ IsEvent("sum") /\ UNCHANGED ivars
         /\ Equal("nodes, document frequencies, listed documents and their frequencies",
                  {<<n[1], n[2], n[3], n[4]>> : n \in Rng(Ev.nodes)},
                  {<<t, Listed(t), Listed(t), Cardinality({I!DocsOf(t)[d] : d \in Keys(I!DocsOf(t))})>> : t \in nodes})
         /\ Holds(\A a \in Rng(Ev.asked) : Equal("get_doc_frequency and get_docs", <<a[2], a[3]>>, <<Listed(a[1]), Listed(a[1])>>))
DoRemove == IsEvent("rem") /\ I!RemoveToken(Ev.d, Ev.t)
DoQuery == IsEvent("q") /\ Holds(\A q \in Rng(Ev.r) : AnswerMatches(q)) /\ UNCHANGED ivars
DoDump == IsEvent("dump") /\ DumpMatches /\ UNCHANGED ivars
(* The rest of the history goes on with the reloaded index. Two deviations of this tree:    *)
(* the JSON reader gives up at 128 levels of nesting, and it misreads some numbers in their   *)
(* last digit. Ev.moved are the numbers that serde_json by itself misreads, with what it     *)
(* reads instead.                                                                            *)
TooDeep(t) == Len(t) >= 120
FreqsNow == UNION {{post[t][d] : d \in Keys(post[t])} : t \in Keys(post)}
Read(f) == IF \E m \in Rng(Ev.moved) : m[1] = f THEN (CHOOSE m \in Rng(Ev.moved) : m[1] = f)[2] ELSE f
DoReload ==
  /\ IsEvent("reload") /\ nodes' = nodes
  /\ IF ~Ev.ok
     THEN /\ Expect("loading fails", \E t \in nodes : TooDeep(t), Ev, "the index")
          /\ PrintT("@K " \o ToJson([id |-> "C11-depth", what |-> "inverted index"]))
          /\ post' = post
     ELSE /\ Equal("reload", <<Ev.eq, Ev.same, Ev.twice>>, <<Ev.moved = <<>>, TRUE, TRUE>>)
          /\ Equal("misread frequencies", {m[1] : m \in Rng(Ev.moved)} \ FreqsNow, {})
          /\ Ev.moved # <<>> => PrintT("@K " \o ToJson([id |-> "C11-float", what |-> "inverted index"]))
          /\ post' = [t \in Keys(post) |-> [d \in Keys(post[t]) |-> Read(post[t][d])]]

(* From here on another inverted index is looked at.                                        *)
DoGroup == IsEvent("group") /\ nodes' = {<<>>} /\ post' = Empty
Next == DoGroup \/ DoAdd \/ DoAddMany \/ DoRemove \/ DoSum \/ DoQuery \/ DoDump \/ DoReload \/ (Done /\ UNCHANGED ivars)
Spec == Init /\ [][Next]_<<tid, l, nodes, post>>

DesignHolds == I!PrefixClosed /\ I!PostingsHaveNodes /\ I!NoEmptyPostings
===============================================================================
