------------------------------- MODULE MCSeveral ------------------------------
(* Two indexes of one process, each made and filled on its own, worked on in any order. *)
(* What one of them holds is a function of what was done to it alone.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CustomLang

CONSTANTS Values, Refs, MaxEach, Emit

(* The two differ in language, fields, reference field and saving.                       *)
Made == << [lang |-> "rw", fields |-> <<"f">>, refn |-> "id", save |-> TRUE],
           [lang |-> "tg", fields |-> <<"f", "g">>, refn |-> "g", save |-> FALSE] >>
Which == 1..2

VARIABLES st,     \* index -> its state
          done    \* what was done, in order: <<index, reference, values>>

Process(lg, tk, v) == Bagged(CustomPipe(lg, LangTokens(lg, tk, v)))
TextOf(v) == FoldLeft(LAMBDA a, b : a \o b, "", v)

Decl(k) == [i \in DOMAIN Made[k].fields |-> [f |-> Made[k].fields[i], tk |-> "lang"]]
Start(k) == [stage |-> "ready", lang |-> Made[k].lang, decl |-> Decl(k), refn |-> Made[k].refn, save |-> Made[k].save,
             post |-> [f \in Rng(Made[k].fields) |-> Empty], docs |-> Empty, info |-> Empty]

(* The next state of an index, by the specification of a single one.                      *)
After(s, r, v) ==
  LET X == INSTANCE Elasticlunr WITH stage <- s.stage, lang <- s.lang, decl <- s.decl, refn <- s.refn, save <- s.save,
             post <- s.post, docs <- s.docs, info <- s.info
      B == [i \in DOMAIN v |-> IF s.decl[i].f # s.refn THEN Process(s.lang, s.decl[i].tk, v[i]) ELSE [bag |-> Empty, len |-> 0]]
  IN [s EXCEPT !.post = X!PostAfter(r, B), !.info = X!InfoAfter(r, B),
               !.docs = Put(s.docs, r, IF s.save THEN X!Record(r, v) ELSE Empty)]

Init == st = [k \in Which |-> Start(k)] /\ done = <<>>
Count(k) == Cardinality({i \in DOMAIN done : done[i][1] = k})
Add(k, r, v) == /\ Count(k) < MaxEach
                /\ st' = [st EXCEPT ![k] = After(st[k], r, v)]
                /\ done' = Append(done, <<k, r, v>>)
Vals(k) == {[i \in DOMAIN Made[k].fields |-> v] : v \in Values}
Next == \E k \in Which : \E r \in Refs, v \in Vals(k) : Add(k, r, v)
Spec == Init /\ [][Next]_<<st, done>>

(* The history of one index alone leads to the same.                                       *)
Own(k) == SelectSeq(done, LAMBDA x : x[1] = k)
Independent == \A k \in Which : st[k] = FoldLeft(LAMBDA s, h : After(s, h[2], h[3]), Start(k), Own(k))
OneAtATime == [][\A k \in Which : \A j \in Which : j # k /\ (st[k])' # st[k] => (st[j])' = st[j]]_<<st, done>>

Pairs(m) == {<<k, m[k]>> : k \in Keys(m)}
Shot(s) == [lang |-> s.lang, stage |-> "ready", fields |-> [i \in DOMAIN s.decl |-> s.decl[i].f], ref |-> s.refn, save |-> s.save,
            post |-> {<<f, {<<t, Pairs(s.post[f][t])>> : t \in Keys(s.post[f])}>> : f \in Keys(s.post)},
            docs |-> {<<r, Pairs(s.docs[r])>> : r \in Keys(s.docs)},
            info |-> {<<r, Pairs(s.info[r])>> : r \in Keys(s.info)}]
EmitState == ~Emit \/ done = <<>> \/ \E k \in Which : Count(k) < MaxEach \/ PrintT("@T " \o ToJson([done |-> done, end |-> [j \in Which |-> Shot(st[j])]]))

ValuesTwo == {<<"a">>, <<"x", " ", "a">>}
===============================================================================
