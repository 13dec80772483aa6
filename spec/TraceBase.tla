------------------------------- MODULE TraceBase -------------------------------
(* Recorded scenarios: an array of [id, events]. A trace specification follows     *)
(* each of them from its first event; a scenario whose next event no action of     *)
(* the specification allows leaves TLC in a deadlock, and one which is followed to  *)
(* its end stutters.                                                                *)
EXTENDS Maps, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

VARIABLES tid, l

Events == Data[tid].events
Ev == Events[l]

TInit == tid \in DOMAIN Data /\ l = 1
Step == l <= Len(Events) /\ l' = l + 1 /\ UNCHANGED tid
Done == l > Len(Events) /\ UNCHANGED <<tid, l>>
IsEvent(e) == Step /\ Ev.e = e

(* Both are evaluated, and a failure says which observation it was.                 *)
Expect(what, cond, seen, want) ==
  IF cond THEN TRUE
  ELSE PrintT("@X " \o ToJson([id |-> Data[tid].id, at |-> l, what |-> what, seen |-> ToString(seen), want |-> ToString(want)])) /\ FALSE
Equal(what, seen, want) == Expect(what, seen = want, seen, want)
(* Evaluated as one value: TLC would take a quantifier in an action apart, conjunct  *)
(* by conjunct.                                                                     *)
Holds(b) == b = TRUE
NoDup(s) == Cardinality(Rng(s)) = Len(s)
===============================================================================
