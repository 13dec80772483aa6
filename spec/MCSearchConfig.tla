----------------------------- MODULE MCSearchConfig ----------------------------
EXTENDS SearchConfig, Json
EmitState == PrintT("@T " \o ToJson([b |-> bool, x |-> expand, leaves |-> Leaves,
   fs |-> {<<f, fields[f].boost, fields[f].bool, fields[f].expand>> : f \in Keys(fields)}]))
===============================================================================
