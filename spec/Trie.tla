-------------------------------- MODULE Trie ----------------------------------
(* The inverted index as it is built: a tree with one character per edge, whose *)
(* nodes carry the listed documents and a document counter. Adding and removing *)
(* walk down one character at a time; removing works by recursion on the rest   *)
(* of the token. The module refines InvertedIndex.                              *)
EXTENDS Maps

CONSTANTS Docs, Tokens, Freqs

VARIABLES tree,   \* path -> [docs |-> document -> frequency, df |-> counter]
          pc,     \* the operation in progress
          base    \* the paths there were before it

tvars == <<tree, pc, base>>

Idle == [op |-> "idle"]
NewNode == [docs |-> Empty, df |-> 0]
Known == DOMAIN tree

TInit == tree = (<<>> :> NewNode) /\ pc = Idle /\ base = {<<>>}

AddStart(d, t, f) ==
  /\ pc = Idle
  /\ IF t = <<>> THEN UNCHANGED <<tree, pc, base>>
     ELSE /\ pc' = [op |-> "add", d |-> d, t |-> t, f |-> f, k |-> 0]
          /\ base' = Known
          /\ UNCHANGED tree

(* entry(character).or_default()                                                *)
AddDescend ==
  /\ pc.op = "add" /\ pc.k < Len(pc.t)
  /\ LET p == SubSeq(pc.t, 1, pc.k + 1) IN
       tree' = IF p \in Known THEN tree ELSE Put(tree, p, NewNode)
  /\ pc' = [pc EXCEPT !.k = @ + 1]
  /\ UNCHANGED base

AddFinish ==
  /\ pc.op = "add" /\ pc.k = Len(pc.t)
  /\ LET n == tree[pc.t] IN
       tree' = [tree EXCEPT ![pc.t] =
                  [docs |-> Put(n.docs, pc.d, pc.f),
                   df |-> IF pc.d \in Keys(n.docs) THEN n.df ELSE n.df + 1]]
  /\ pc' = Idle
  /\ base' = Known

RemoveStart(d, t) ==
  /\ pc = Idle
  /\ IF t = <<>> THEN UNCHANGED <<tree, pc, base>>
     ELSE pc' = [op |-> "remove", d |-> d, t |-> t, f |-> 0, k |-> 0] /\ UNCHANGED <<tree, base>>

RemoveDescend ==
  /\ pc.op = "remove" /\ pc.k < Len(pc.t)
  /\ IF SubSeq(pc.t, 1, pc.k + 1) \in Known THEN pc' = [pc EXCEPT !.k = @ + 1] ELSE pc' = Idle
  /\ UNCHANGED <<tree, base>>

RemoveFinish ==
  /\ pc.op = "remove" /\ pc.k = Len(pc.t)
  /\ LET n == tree[pc.t] IN
       tree' = IF pc.d \in Keys(n.docs)
               THEN [tree EXCEPT ![pc.t] = [docs |-> Drop(n.docs, pc.d), df |-> n.df - 1]]
               ELSE tree
  /\ pc' = Idle
  /\ UNCHANGED base

TNext == \/ \E d \in Docs, t \in Tokens, f \in Freqs : AddStart(d, t, f)
         \/ AddDescend \/ AddFinish
         \/ \E d \in Docs, t \in Tokens : RemoveStart(d, t)
         \/ RemoveDescend \/ RemoveFinish

Fairness == WF_tvars(AddDescend) /\ WF_tvars(AddFinish) /\ WF_tvars(RemoveDescend) /\ WF_tvars(RemoveFinish)
TSpec == TInit /\ [][TNext]_tvars /\ Fairness

(* Nodes that a walk has created become known with its last step.               *)
Abs == INSTANCE InvertedIndex WITH
  nodes <- IF pc.op = "add" THEN base ELSE Known,
  post <- [t \in {p \in Known : Keys(tree[p].docs) # {}} |-> tree[t].docs]

Refines == Abs!ISpec

(* The counter is the number of listed documents in every state.                *)
DfExact == \A p \in Known : tree[p].df = Cardinality(Keys(tree[p].docs))
RootEmpty == Keys(tree[<<>>].docs) = {}
Closed == \A p \in Known : Prefixes(p) \subseteq Known
Terminates == [](pc.op # "idle" => <>(pc.op = "idle"))
===============================================================================
