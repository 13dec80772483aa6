------------------------------ MODULE Elasticlunr ------------------------------
(* The whole index: an IndexBuilder collects declarations, build turns them into *)
(* an Index, add_doc puts documents into it.                                      *)
(*                                                                                *)
(* A value is whatever the instantiating module takes for the text of a field;    *)
(* Process(lang, tk, v) is the bag of tokens which tokenizer tk (or, for "lang",   *)
(* that of the language) and the language's pipeline make of it, with the length  *)
(* of that bag, and TextOf(v) the text itself.                                    *)
EXTENDS Maps

CONSTANTS Process(_, _, _), TextOf(_)

VARIABLES stage,   \* "building", "ready", or "panic"
          lang,    \* the language
          decl,    \* declared fields in order: [f |-> name, tk |-> tokenizer]
          refn,    \* name of the reference field
          save,    \* whether texts are kept
          post,    \* field -> token -> document -> number of occurrences
          docs,    \* reference -> name -> text
          info     \* reference -> field -> number of tokens

vars == <<stage, lang, decl, refn, save, post, docs, info>>

DeclNames(dc) == [i \in DOMAIN dc |-> dc[i].f]
Declared(dc) == {dc[i].f : i \in DOMAIN dc}
Names == DeclNames(decl)

Fresh(lg) == [stage |-> "building", lang |-> lg, decl |-> <<>>, refn |-> "id", save |-> TRUE,
              post |-> Empty, docs |-> Empty, info |-> Empty]

Is(st) == /\ stage = st.stage /\ lang = st.lang /\ decl = st.decl /\ refn = st.refn
          /\ save = st.save /\ post = st.post /\ docs = st.docs /\ info = st.info
Becomes(st) == /\ stage' = st.stage /\ lang' = st.lang /\ decl' = st.decl /\ refn' = st.refn
               /\ save' = st.save /\ post' = st.post /\ docs' = st.docs /\ info' = st.info

EInit(lg) == Is(Fresh(lg))
Restart(lg) == Becomes(Fresh(lg))

Panic == stage' = "panic" /\ UNCHANGED <<lang, decl, refn, save, post, docs, info>>

(*------------------------------- declarations --------------------------------*)

AddField(f, tk) ==
  /\ stage = "building" /\ f \notin Declared(decl)
  /\ decl' = Append(decl, [f |-> f, tk |-> tk])
  /\ UNCHANGED <<stage, lang, refn, save, post, docs, info>>

AddFieldTwice(f, tk) == stage = "building" /\ f \in Declared(decl) /\ Panic

Fields(dc, fs) == dc \o [i \in DOMAIN fs |-> [f |-> fs[i], tk |-> "lang"]]
Distinct(dc) == Cardinality(Declared(dc)) = Len(dc)

(* add_fields is a series of AddField                                           *)
AddFields(fs) ==
  /\ stage = "building" /\ Distinct(Fields(decl, fs))
  /\ decl' = Fields(decl, fs)
  /\ UNCHANGED <<stage, lang, refn, save, post, docs, info>>

AddFieldsTwice(fs) == stage = "building" /\ ~Distinct(Fields(decl, fs)) /\ Panic

SetRef(f) == /\ stage = "building" /\ refn' = f
             /\ UNCHANGED <<stage, lang, decl, save, post, docs, info>>

SaveDocs(v) == /\ stage = "building" /\ save' = v
               /\ UNCHANGED <<stage, lang, decl, refn, post, docs, info>>

Build == /\ stage = "building" /\ stage' = "ready"
         /\ post' = [f \in Declared(decl) |-> Empty]
         /\ UNCHANGED <<lang, decl, refn, save, docs, info>>

(* Index::new and Index::with_language                                          *)
New(lg, fs) ==
  LET dc == Fields(<<>>, fs) IN
  IF Distinct(dc)
  THEN Becomes([Fresh(lg) EXCEPT !.stage = "ready", !.decl = dc, !.post = [f \in Declared(dc) |-> Empty]])
  ELSE Becomes([Fresh(lg) EXCEPT !.stage = "panic"])

(*--------------------------------- documents ---------------------------------*)

(* Postings of one field after a document whose field has the given bag. The    *)
(* empty token counts for the length but is never listed.                       *)
Merge(p, r, bag) ==
  LET ts == Keys(bag) \ {<<>>} IN
  [t \in Keys(p) \cup ts |-> IF t \in ts THEN Put(GetD(p, t, Empty), r, bag[t]) ELSE p[t]]

Indexed(i) == decl[i].f # refn

PostAfter(r, B) ==
  [f \in Keys(post) |->
     IF \E i \in DOMAIN B : decl[i].f = f /\ Indexed(i)
     THEN Merge(post[f], r, B[CHOOSE i \in DOMAIN B : decl[i].f = f].bag)
     ELSE post[f]]

InfoAfter(r, B) ==
  LET S == {i \in DOMAIN B : Indexed(i)} IN
  IF S = {} THEN info
  ELSE Put(info, r, [f \in {decl[i].f : i \in S} |->
                       B[CHOOSE i \in S : decl[i].f = f].len] @@ GetD(info, r, Empty))

(* A field which has the name of the reference field takes its place.           *)
Record(r, vals) ==
  [n \in {refn} \cup {decl[i].f : i \in DOMAIN vals} |->
     IF \E i \in DOMAIN vals : decl[i].f = n
     THEN TextOf(vals[CHOOSE i \in DOMAIN vals : decl[i].f = n])
     ELSE r]

AddDoc(r, vals) ==
  /\ stage = "ready" /\ Len(vals) <= Len(decl)
  /\ LET B == [i \in DOMAIN vals |-> IF Indexed(i) THEN Process(lang, decl[i].tk, vals[i])
                                     ELSE [bag |-> Empty, len |-> 0]] IN
       /\ post' = PostAfter(r, B)
       /\ info' = InfoAfter(r, B)
  /\ docs' = Put(docs, r, IF save THEN Record(r, vals) ELSE Empty)
  /\ UNCHANGED <<stage, lang, decl, refn, save>>

(* More values than fields: the documented way to fail.                         *)
AddDocTooLong(r, n) == stage = "ready" /\ n > Len(decl) /\ Panic

(*------------------------------ what is observed -----------------------------*)

(* Nodes of a field's trie.                                                     *)
Nodes(p) == UNION {Prefixes(t) : t \in Keys(p)} \cup {<<>>}
Postings(p) == {<<t, d, p[t][d]>> : <<t, d>> \in {td \in Keys(p) \X Keys(docs) : td[2] \in Keys(p[td[1]])}}
Count == Cardinality(Keys(docs))

(*-------------------------------- invariants ---------------------------------*)

FieldsDistinct == Distinct(decl)
FieldsHavePostings == stage = "ready" => Keys(post) = Declared(decl)
RefNotIndexed == stage = "ready" /\ refn \in Keys(post) => post[refn] = Empty
RefHasNoLength == \A r \in Keys(info) : refn \notin Keys(info[r])
NoEmptyToken == \A f \in Keys(post) : <<>> \notin Keys(post[f])
OnlyKnownDocs == \A f \in Keys(post) : \A t \in Keys(post[f]) : Keys(post[f][t]) \subseteq Keys(docs)
PositiveCounts == \A f \in Keys(post) : \A t \in Keys(post[f]) :
                    Keys(post[f][t]) # {} /\ \A d \in Keys(post[f][t]) : post[f][t][d] > 0
InfoOfDocs == Keys(info) \subseteq Keys(docs)
InfoOfFields == \A r \in Keys(info) : Keys(info[r]) \subseteq Declared(decl)
NothingSaved == ~save => \A r \in Keys(docs) : docs[r] = Empty
ExactWhenSaved == save => \A r \in Keys(docs) :
                    /\ refn \in Keys(docs[r])
                    /\ (refn \notin Declared(decl) => docs[r][refn] = r)
(* Every listed occurrence is paid for by the recorded length.                  *)
RECURSIVE Occurrences(_, _, _)
Occurrences(p, T, d) == IF T = {} THEN 0
                        ELSE LET t == CHOOSE t \in T : TRUE IN
                             GetD(p[t], d, 0) + Occurrences(p, T \ {t}, d)

(* Steps.                                                                       *)
OtherDocsKept ==
  [][stage = "ready" /\ stage' = "ready" =>
       Cardinality({r \in Keys(docs) \cup Keys(docs') :
          \/ Opt(docs, r) # Opt(docs', r)
          \/ Opt(info, r) # Opt(info', r)
          \/ \E f \in Keys(post) : \E t \in Keys(post[f]) \cup Keys(post'[f]) :
               Opt(GetD(post[f], t, Empty), r) # Opt(GetD(post'[f], t, Empty), r)}) <= 1]_vars
NothingForgotten ==
  [][stage = "ready" /\ stage' = "ready" =>
       /\ Keys(docs) \subseteq Keys(docs')
       /\ \A f \in Keys(post) : \A t \in Keys(post[f]) :
            t \in Keys(post'[f]) /\ Keys(post[f][t]) \subseteq Keys(post'[f][t])]_vars
SettingsFixed ==
  [][stage = "ready" => UNCHANGED <<lang, decl, refn, save>>]_vars
===============================================================================
