------------------------------ MODULE RegistryTrace ----------------------------
(* What the registry of languages answered, with the languages that were enabled when  *)
(* the library was built (the header of the scenario).                                 *)
EXTENDS TraceBase, Registry

ASSUME CodesDistinct /\ NamesDistinct

Enabled == Rng(Data[tid].hdr.enabled)

Init == TInit

Triples(found) == {<<x[1], x[2], x[3]>> : x \in Rng(found)}

DoList ==
  /\ IsEvent("list")
  /\ Expect("languages", {x.code : x \in Rng(Ev.langs)} = Enabled /\ Len(Ev.langs) = Cardinality(Enabled), [i \in DOMAIN Ev.langs |-> Ev.langs[i].code], Enabled)
  /\ Holds(\A i \in DOMAIN Ev.langs :
       LET x == Ev.langs[i]  b == Builtin[x.code] IN
       /\ Equal("name of " \o x.code, x.name, b.name)
       /\ Equal("stages of " \o x.code, x.stages, b.stages)
       /\ Equal("serialized language of " \o x.code, x.jname, b.name)
       /\ Equal("serialized pipeline of " \o x.code, x.jstages, b.stages)
       /\ Equal("pipeline of " \o x.code \o " by itself", x.ser, b.stages))

DoCodes ==
  /\ IsEvent("codes")
  /\ LET want == UNION {{<<s, Builtin[c].name, c>> : s \in CaseVariants(c)} : c \in Enabled}
         seen == Triples(Ev.found) IN
     Expect("found by code", seen = want, seen \ want, want \ seen)

DoNames ==
  /\ IsEvent("names")
  /\ LET want == {<<Builtin[c].name, Builtin[c].name, c>> : c \in Enabled}
         seen == Triples(Ev.found) IN
     Expect("found by name", seen = want, seen \ want, want \ seen)

Next == DoList \/ DoCodes \/ DoNames \/ Done
Spec == Init /\ [][Next]_<<tid, l>>
===============================================================================
