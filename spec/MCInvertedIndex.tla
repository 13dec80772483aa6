---------------------------- MODULE MCInvertedIndex ----------------------------
(* InvertedIndex for TLC, with the history of operations.                            *)
EXTENDS InvertedIndex, Json

CONSTANTS MaxOps, Emit

VARIABLE hist

(* Instances for the configurations.                                                 *)
TokensSmall == {<<>>, <<"a">>, <<"a", "b">>, <<"b">>}
TokensDeep == {<<>>, <<"a">>, <<"a", "b">>, <<"a", "b", "a">>, <<"a", "a">>}
TokensChain == {<<"a">>, <<"a", "b">>, <<"a", "b", "c">>}

MInit == IInit /\ hist = <<>>
MAdd == \E d \in Docs, t \in Tokens, f \in Freqs :
          AddToken(d, t, f) /\ hist' = Append(hist, <<"add", d, t, f>>)
MRemove == \E d \in Docs, t \in Tokens : RemoveToken(d, t) /\ hist' = Append(hist, <<"rem", d, t>>)
MNext == Len(hist) < MaxOps /\ (MAdd \/ MRemove)
MSpec == MInit /\ [][MNext]_<<nodes, post, hist>>

NoHist == <<nodes, post>>

(* C03: a pair reports what the last operation on it said; a string is known if it    *)
(* is a prefix of a token that was ever added.                                        *)
LastOn(d, t) == LET S == {i \in DOMAIN hist : hist[i][2] = d /\ hist[i][3] = t} IN
              IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i >= j
MapSemantics ==
  \A d \in Docs, t \in Tokens :
    LET i == LastOn(d, t) IN
    IF i = 0 \/ t = <<>> \/ hist[i][1] = "rem" THEN ~Lists(d, t)
    ELSE Lists(d, t) /\ DocsOf(t)[d] = hist[i][4]
Known == nodes = {<<>>} \cup UNION {Prefixes(hist[i][3]) : i \in {j \in DOMAIN hist : hist[j][1] = "add"}}
(* C02                                                                                *)
DfSemantics == \A t \in nodes : DocFrequency(t) = Cardinality({d \in Docs : Lists(d, t)})

EmitTest == ~Emit \/ PrintT("@T " \o ToJson(
  [ops |-> hist', nodes |-> {<<t, {<<d, post'[t][d]>> : d \in Keys(GetD(post', t, Empty))}>> : t \in nodes'}]))
===============================================================================
