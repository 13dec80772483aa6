-------------------------------- MODULE CfgTrace -------------------------------
(* Recorded serializations of search options.                                          *)
EXTENDS TraceBase

VARIABLES bool, expand, fields

C == INSTANCE SearchConfig WITH FieldNames <- {}, Boosts <- {}

Init == TInit /\ C!CInit

(* The recorded options, then what they serialize to.                                  *)
DoCfg ==
  /\ IsEvent("cfg")
  /\ bool' = Ev.b /\ expand' = Ev.x
  /\ fields' = MapOf([i \in DOMAIN Ev.fs |-> <<Ev.fs[i][1], [boost |-> Ev.fs[i][2], bool |-> Ev.fs[i][3], expand |-> Ev.fs[i][4]]>>])
  /\ LET D == INSTANCE SearchConfig WITH FieldNames <- {}, Boosts <- {}, bool <- Ev.b, expand <- Ev.x,
               fields <- MapOf([i \in DOMAIN Ev.fs |-> <<Ev.fs[i][1], [boost |-> Ev.fs[i][2], bool |-> Ev.fs[i][3], expand |-> Ev.fs[i][4]]>>]) IN
       Prop = "C23" =>
         /\ Equal("leaves", Rng(Ev.leaves), D!Leaves)
         /\ Expect("repeated leaves", NoDup(Ev.leaves), Len(Ev.leaves), "no repetition")
         /\ Equal("to_string_pretty agrees", Ev.same, TRUE)
  /\ Equal("reading back gives equal options", Ev.back, TRUE)

DoGroup == IsEvent("group") /\ UNCHANGED <<bool, expand, fields>>
Next == DoGroup \/ DoCfg \/ (Done /\ UNCHANGED <<bool, expand, fields>>)
Spec == Init /\ [][Next]_<<tid, l, bool, expand, fields>>
===============================================================================
