-------------------------------- MODULE Pipeline -------------------------------
(* A pipeline: a queue of functions from tokens to tokens or nothing. The machine     *)
(* advances any token through its next function, so it covers every order in which     *)
(* an implementation may interleave the tokens; what comes out does not depend on it.  *)
EXTENDS Text

(* Functions by description <<kind, argument>>; a result is <<token>> or <<>>.         *)
Apply(fn, t) ==
  LET k == fn[1]  a == fn[2]  keep(b, x) == IF b THEN <<x>> ELSE <<>> IN
  CASE k = "id"        -> <<t>>
    [] k = "drop"      -> <<>>
    [] k = "app"       -> <<t \o a>>
    [] k = "pre"       -> <<a \o t>>
    [] k = "dropif"    -> keep(t # a, t)
    [] k = "only"      -> keep(t = a, t)
    [] k = "empty"     -> << <<>> >>
    [] k = "dropempty" -> keep(t # <<>>, t)
    [] k = "tail"      -> <<IF t = <<>> THEN t ELSE Tail(t)>>

(* What becomes of one token.                                                          *)
RECURSIVE Through(_, _)
Through(fns, t) ==
  IF fns = <<>> THEN <<t>>
  ELSE LET r == Apply(fns[1], t) IN IF r = <<>> THEN <<>> ELSE Through(Tail(fns), r[1])
Result(fns, ts) == FlattenSeq([i \in DOMAIN ts |-> Through(fns, ts[i])])

(* The calls <<position, argument>> that one token causes, in order.                    *)
RECURSIVE CallsFrom(_, _, _)
CallsFrom(fns, i, t) ==
  IF i > Len(fns) THEN <<>>
  ELSE LET r == Apply(fns[i], t) IN
       <<<<i, t>>>> \o (IF r = <<>> THEN <<>> ELSE CallsFrom(fns, i + 1, r[1]))
CallsOf(fns, ts) == FlattenSeq([k \in DOMAIN ts |-> CallsFrom(fns, 1, ts[k])])

CONSTANTS Queues, Inputs

VARIABLES fns, input,
          at,      \* position of each token: the functions behind it
          val,     \* its value, or <<>> when it is dropped
          calls    \* what has been called with what, in order

pvars == <<fns, input, at, val, calls>>

PInit == /\ fns \in Queues /\ input \in Inputs
         /\ at = [k \in DOMAIN input |-> 0] /\ val = [k \in DOMAIN input |-> <<input[k]>>] /\ calls = <<>>

Waiting(k) == val[k] # <<>> /\ at[k] < Len(fns)
Advance(k) ==
  /\ Waiting(k)
  /\ LET i == at[k] + 1 IN
       /\ val' = [val EXCEPT ![k] = Apply(fns[i], val[k][1])]
       /\ at' = [at EXCEPT ![k] = i]
       /\ calls' = Append(calls, <<i, val[k][1]>>)
  /\ UNCHANGED <<fns, input>>

PNext == \E k \in DOMAIN input : Advance(k)
PSpec == PInit /\ [][PNext]_pvars /\ WF_pvars(PNext)

Finished == \A k \in DOMAIN input : ~Waiting(k)
Output == FlattenSeq(val)

(* C12, in every interleaving.                                                          *)
OutputExact == Finished => Output = Result(fns, input)
CallsExact == Finished => Counts(calls) = Counts(CallsOf(fns, input))
NoCallAfterDrop == \A k \in DOMAIN input : val[k] = <<>> => ~Waiting(k)
EmptyIsIdentity == fns = <<>> => Output = input
Ends == <>Finished
===============================================================================
