---------------------------- MODULE MCDocumentStore ----------------------------
EXTENDS DocumentStore, Json

CONSTANTS MaxOps, Emit
VARIABLE hist

RecordsTwo == {<<>>, ("t" :> "x") @@ ("u" :> "y")}
RecordsThree == {<<>>, ("t" :> "x"), ("t" :> "z") @@ ("u" :> "y")}

MInit == SInit /\ hist = <<>>
Log(x) == hist' = Append(hist, x)
MAddDoc == \E r \in Refs, rec \in Records : AddDoc(r, rec) /\ Log(<<"add", r, {<<n, rec[n]>> : n \in Keys(rec)}>>)
MRemoveDoc == \E r \in Refs : RemoveDoc(r) /\ Log(<<"rem", r>>)
MLength == \E r \in Refs, f \in Fields, n \in Lengths : AddFieldLength(r, f, n) /\ Log(<<"len", r, f, n>>)
MNext == Len(hist) < MaxOps /\ (MAddDoc \/ MRemoveDoc \/ MLength)
MSpec == MInit /\ [][MNext]_<<save, docs, info, length, hist>>
NoHist == <<save, docs, info, length>>

(* C07: a reference is present exactly if the last operation on documents that names  *)
(* it added it.                                                                       *)
Present(r) == LET S == {i \in DOMAIN hist : hist[i][2] = r /\ hist[i][1] \in {"add", "rem"}} IN
              S # {} /\ hist[CHOOSE i \in S : \A j \in S : i >= j][1] = "add"
PresentExact == \A r \in Refs : (r \in Keys(docs)) = Present(r)
LengthsForgotten == \A r \in Refs : hist # <<>> /\ hist[Len(hist)] = <<"rem", r>> =>
                      \A f \in Fields : FieldLength(r, f) = 0

EmitTest == ~Emit \/ PrintT("@T " \o ToJson(
  [ops |-> hist', save |-> save', length |-> length',
   docs |-> {<<r, {<<n, docs'[r][n]>> : n \in Keys(docs'[r])}>> : r \in Keys(docs')},
   info |-> {<<r, {<<f, info'[r][f]>> : f \in Keys(info'[r])}>> : r \in Keys(info')}]))
===============================================================================
