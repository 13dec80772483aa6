------------------------------- MODULE StoreTrace ------------------------------
(* Recorded histories of a DocumentStore. Lengths are decimal texts, as they may be    *)
(* larger than what TLC calculates with.                                               *)
EXTENDS TraceBase

VARIABLES save, docs, info, length

D == INSTANCE DocumentStore WITH Refs <- {}, Records <- {}, Fields <- {}, Lengths <- {}, Saves <- BOOLEAN

svars == <<save, docs, info, length>>

PairSet(m) == {<<k, m[k]>> : k \in Keys(m)}
SeenPairs(ps) == {<<p[1], p[2]>> : p \in Rng(ps)}

AnswerMatches(q) ==
  /\ Equal("has_doc", q.has, q.r \in Keys(docs))
  /\ Equal("get_doc is some", q.some, q.r \in Keys(docs))
  /\ Equal("get_doc", SeenPairs(q.doc), PairSet(GetD(docs, q.r, Empty)))
  /\ Holds(\A x \in Rng(q.lens) : Equal("get_field_length", x[2], D!FieldLengthOr(q.r, x[1], "0")))

QueryMatches ==
  /\ Holds(\A q \in Rng(Ev.r) : AnswerMatches(q))
  /\ Equal("len", Ev.len, length) /\ Equal("length", Ev.flen, length)
  /\ Equal("is_empty", Ev.empty, length = 0) /\ Equal("is_stored", Ev.stored, save)

DumpMatches(v) ==
  /\ Equal("save", v.save, save)
  /\ Equal("length", v.len, length)
  /\ Equal("docs", {<<x[1], SeenPairs(x[2])>> : x \in Rng(v.docs)}, {<<r, PairSet(docs[r])>> : r \in Keys(docs)})
  /\ Equal("docInfo", {<<x[1], SeenPairs(x[2])>> : x \in Rng(v.info)}, {<<r, PairSet(info[r])>> : r \in Keys(info)})
  /\ Equal("members", Rng(v.keys), {"save", "docs", "docInfo", "length"}) /\ NoDup(v.keys)
  /\ NoDup([i \in DOMAIN v.docs |-> v.docs[i][1]]) /\ NoDup([i \in DOMAIN v.info |-> v.info[i][1]])

Init == TInit /\ save = Data[tid].hdr.save /\ docs = Empty /\ info = Empty /\ length = 0
DoAdd == IsEvent("add") /\ D!AddDoc(Ev.r, MapOf(Ev.doc))
DoRemove == IsEvent("rem") /\ D!RemoveDoc(Ev.r)
DoLength == IsEvent("len") /\ D!AddFieldLength(Ev.r, Ev.f, Ev.n)
DoQuery == IsEvent("q") /\ QueryMatches /\ UNCHANGED svars
DoDump == IsEvent("dump") /\ DumpMatches(Ev.v) /\ UNCHANGED svars
(* A copy goes on in place of the store, which is changed and given up.                *)
DoCopy == IsEvent("copy") /\ UNCHANGED svars
(* From here on another store of the same kind is looked at.                           *)
DoGroup == IsEvent("group") /\ docs' = Empty /\ info' = Empty /\ length' = 0 /\ UNCHANGED save
DoReload == /\ IsEvent("reload") /\ UNCHANGED svars
            /\ Equal("reload", <<Ev.ok, Ev.eq, Ev.same>>, <<TRUE, TRUE, TRUE>>)

Next == DoGroup \/ DoAdd \/ DoRemove \/ DoLength \/ DoCopy \/ DoQuery \/ DoDump \/ DoReload \/ (Done /\ UNCHANGED svars)
Spec == Init /\ [][Next]_<<tid, l, save, docs, info, length>>

DesignHolds == D!LengthExact /\ D!NothingSaved
===============================================================================
