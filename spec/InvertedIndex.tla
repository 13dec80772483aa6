---------------------------- MODULE InvertedIndex -----------------------------
(* The inverted index as its users see it: which strings it knows (the nodes of *)
(* its trie), and which documents it lists for which token at what frequency.   *)
(* Tokens are sequences of characters.                                          *)
EXTENDS Maps

CONSTANTS Docs, Tokens, Freqs

VARIABLES nodes,  \* strings known to the index
          post    \* token -> document -> frequency, for tokens that list a document

ivars == <<nodes, post>>

IInit == nodes = {<<>>} /\ post = Empty

(* Functional forms, shared with the other modules.                             *)
PostAdd(p, d, t, f) == Put(p, t, Put(GetD(p, t, Empty), d, f))
PostRemove(p, d, t) ==
  IF t \notin Keys(p) \/ d \notin Keys(p[t]) THEN p
  ELSE IF Keys(p[t]) = {d} THEN Drop(p, t)
  ELSE Put(p, t, Drop(p[t], d))

(* The empty token is not a token: adding or removing it does nothing.          *)
AddToken(d, t, f) ==
  /\ nodes' = nodes \cup Prefixes(t)
  /\ post' = IF t = <<>> THEN post ELSE PostAdd(post, d, t, f)

RemoveToken(d, t) ==
  /\ post' = PostRemove(post, d, t)
  /\ UNCHANGED nodes

(* Queries.                                                                     *)
HasToken(t) == t \in nodes
DocsOf(t) == GetD(post, t, Empty)
DocFrequency(t) == Cardinality(Keys(DocsOf(t)))
Lists(d, t) == d \in Keys(DocsOf(t))

INext == \/ \E d \in Docs, t \in Tokens, f \in Freqs : AddToken(d, t, f)
         \/ \E d \in Docs, t \in Tokens : RemoveToken(d, t)

ISpec == IInit /\ [][INext]_ivars

(* Properties of the design.                                                    *)
PrefixClosed == \A t \in nodes : Prefixes(t) \subseteq nodes
PostingsHaveNodes == Keys(post) \subseteq nodes \ {<<>>}
NoEmptyPostings == \A t \in Keys(post) : Keys(post[t]) # {}
KnownStaysKnown == [][nodes \subseteq nodes']_ivars
(* A step touches one (token, document) pair at most.                           *)
Frame == [][Cardinality({td \in Tokens \X Docs :
               LET t == td[1]  d == td[2]  IN
               Lists(d, t) # (d \in Keys(GetD(post', t, Empty)))
               \/ (Lists(d, t) /\ post[t][d] # post'[t][d])}) <= 1]_ivars
===============================================================================
