---------------------------- MODULE DocumentStore -----------------------------
(* The document store: records of references, field lengths, and a counter that *)
(* is serialized next to them.                                                  *)
EXTENDS Maps

CONSTANTS Refs, Records, Fields, Lengths, Saves

VARIABLES save, docs, info, length

svars == <<save, docs, info, length>>

SInit == save \in Saves /\ docs = Empty /\ info = Empty /\ length = 0

AddDoc(r, rec) ==
  /\ docs' = Put(docs, r, IF save THEN rec ELSE Empty)
  /\ length' = IF r \in Keys(docs) THEN length ELSE length + 1
  /\ UNCHANGED <<save, info>>

RemoveDoc(r) ==
  /\ IF r \in Keys(docs)
     THEN docs' = Drop(docs, r) /\ info' = Drop(info, r) /\ length' = length - 1
     ELSE UNCHANGED <<docs, info, length>>
  /\ UNCHANGED save

AddFieldLength(r, f, n) ==
  /\ info' = Put(info, r, Put(GetD(info, r, Empty), f, n))
  /\ UNCHANGED <<save, docs, length>>

(* Lengths may be recorded ahead of the document, but are reported only for     *)
(* documents that are present.                                                  *)
FieldLengthOr(r, f, zero) == IF r \in Keys(docs) THEN GetD(GetD(info, r, Empty), f, zero) ELSE zero
FieldLength(r, f) == FieldLengthOr(r, f, 0)

SNext == \/ \E r \in Refs, rec \in Records : AddDoc(r, rec)
         \/ \E r \in Refs : RemoveDoc(r)
         \/ \E r \in Refs, f \in Fields, n \in Lengths : AddFieldLength(r, f, n)

SSpec == SInit /\ [][SNext]_svars

LengthExact == length = Cardinality(Keys(docs))
NothingSaved == ~save => \A r \in Keys(docs) : docs[r] = Empty
(* Removing leaves nothing behind; a step concerns one reference only.          *)
Frame == [][Cardinality({r \in Refs :
              Opt(docs, r) # Opt(docs', r)
              \/ GetD(info, r, Empty) # GetD(info', r, Empty)}) <= 1]_svars
Forgets == [][\A r \in Refs : r \in Keys(docs) /\ r \notin Keys(docs')
              => r \notin Keys(info') /\ length' = length - 1]_svars
SaveConstant == [][save' = save]_svars
===============================================================================
