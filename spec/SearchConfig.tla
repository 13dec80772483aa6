----------------------------- MODULE SearchConfig ------------------------------
(* Search options and the JSON object that elasticlunr.js takes as configuration.     *)
EXTENDS Maps

CONSTANTS FieldNames, Boosts

VARIABLES bool,    \* "none" while nobody set it
          expand,
          fields   \* name -> [boost, bool, expand], "none" or -1 for what is not set

cvars == <<bool, expand, fields>>

Unset == [boost |-> -1, bool |-> "none", expand |-> "none"]

CInit == bool = "none" /\ expand = "none" /\ fields = Empty

SetBool(b) == bool' = b /\ UNCHANGED <<expand, fields>>
SetExpand(x) == expand' = x /\ UNCHANGED <<bool, fields>>
AddOptions(f) == f \notin Keys(fields) /\ fields' = Put(fields, f, Unset) /\ UNCHANGED <<bool, expand>>
SetFieldBoost(f, n) == f \in Keys(fields) /\ fields' = [fields EXCEPT ![f].boost = n] /\ UNCHANGED <<bool, expand>>
SetFieldBool(f, b) == f \in Keys(fields) /\ fields' = [fields EXCEPT ![f].bool = b] /\ UNCHANGED <<bool, expand>>
SetFieldExpand(f, x) == f \in Keys(fields) /\ fields' = [fields EXCEPT ![f].expand = x] /\ UNCHANGED <<bool, expand>>

CNext == \/ \E b \in {"or", "and"} : SetBool(b)
         \/ \E x \in {"true", "false"} : SetExpand(x)
         \/ \E f \in FieldNames :
              \/ AddOptions(f)
              \/ \E n \in Boosts : SetFieldBoost(f, n)
              \/ \E b \in {"or", "and"} : SetFieldBool(f, b)
              \/ \E x \in {"true", "false"} : SetFieldExpand(f, x)
CSpec == CInit /\ [][CNext]_cvars

(* The leaves <<path, kind, text>> of the JSON.                                        *)
Word == [or |-> "OR", and |-> "AND", none |-> "OR"]
Flag == [true |-> "true", false |-> "false", none |-> "false"]

FieldLeaves(f, o) ==
  (IF o.boost = -1 THEN {} ELSE {<<<<"fields", f, "boost">>, "num", ToString(o.boost)>>})
  \cup (IF o.bool = "none" THEN {} ELSE {<<<<"fields", f, "bool">>, "str", Word[o.bool]>>})
  \cup (IF o.expand = "none" THEN {} ELSE {<<<<"fields", f, "expand">>, "bool", Flag[o.expand]>>})
  \cup (IF o = Unset THEN {<<<<"fields", f>>, "obj", "">>} ELSE {})

Leaves ==
  {<<<<"bool">>, "str", Word[bool]>>, <<<<"expand">>, "bool", Flag[expand]>>}
  \cup (IF Keys(fields) = {} THEN {<<<<"fields">>, "obj", "">>} ELSE {})
  \cup UNION {FieldLeaves(f, fields[f]) : f \in Keys(fields)}

(* Reading the leaves back: the options are determined by them, up to unset = default. *)
ReadField(f) ==
  [boost |-> LET S == {x[3] : x \in {y \in Leaves : y[1] = <<"fields", f, "boost">>}} IN S,
   bool |-> {x[3] : x \in {y \in Leaves : y[1] = <<"fields", f, "bool">>}},
   expand |-> {x[3] : x \in {y \in Leaves : y[1] = <<"fields", f, "expand">>}}]
ReadFields == {x[1][2] : x \in {y \in Leaves : Len(y[1]) >= 2}}
Lossless ==
  /\ ReadFields = Keys(fields)
  /\ \A f \in Keys(fields) :
       ReadField(f) = [boost |-> IF fields[f].boost = -1 THEN {} ELSE {ToString(fields[f].boost)},
                       bool |-> IF fields[f].bool = "none" THEN {} ELSE {Word[fields[f].bool]},
                       expand |-> IF fields[f].expand = "none" THEN {} ELSE {Flag[fields[f].expand]}]
  /\ {x[3] : x \in {y \in Leaves : y[1] = <<"bool">>}} = {Word[bool]}
  /\ {x[3] : x \in {y \in Leaves : y[1] = <<"expand">>}} = {Flag[expand]}
OneLeafPerPath == \A x, y \in Leaves : x[1] = y[1] => x = y
===============================================================================
