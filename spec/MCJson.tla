-------------------------------- MODULE MCJson ---------------------------------
(* The serialized form of every reachable index: it can be read back by someone who   *)
(* knows the layout only, so it is lossless. Its leaves are the tests.                  *)
EXTENDS MCElasticlunr, Registry

J == INSTANCE JsonLayout WITH Process <- MCProcess, TextOf <- MCTextOf

Serialized == J!Leaves(Described[lang].name, Described[lang].stages)
Top == {"fields", "pipeline", "ref", "version", "index", "documentStore", "lang"}

LayoutHolds ==
  stage = "ready" =>
    LET L == TLCEval(Serialized) IN
    /\ J!ReadsBack(L, Described[lang].name, Described[lang].stages)
    /\ J!OneValuePerPath(L) /\ J!NoneBelow(L)
    /\ {x[1][1] : x \in L} = Top

EmitJson == ~Emit \/ stage' # "ready" \/
  PrintT("@T " \o ToJson([ops |-> hist', lang |-> lang', stage |-> stage', leaves |-> Serialized']))
===============================================================================
