------------------------------ MODULE JsonLayout -------------------------------
(* The JSON layout that elasticlunr.js loads, as the set of leaves                  *)
(* <<path, kind, text>> of the serialized value. Objects and arrays without members *)
(* are leaves too; the element n of an array is reached by "#n".                    *)
EXTENDS Elasticlunr

StrArr(p, s) == IF s = <<>> THEN {<<p, "arr", "">>}
                ELSE {<<Append(p, "#" \o ToString(i - 1)), "str", s[i]>> : i \in DOMAIN s}
EmptyObj(p, m) == IF Keys(m) = {} THEN {<<p, "obj", "">>} ELSE {}

(* One node of a field's trie.                                                      *)
NodeLeaves(p, m, t) ==
  LET at == p \o t  here == GetD(m, t, Empty) IN
  {<<Append(at, "df"), "num", ToString(Cardinality(Keys(here)))>>}
  \cup EmptyObj(Append(at, "docs"), here)
  \cup {<<at \o <<"docs", d, "tf">>, "root", ToString(here[d])>> : d \in Keys(here)}

TrieLeaves(p, m) == UNION {NodeLeaves(Append(p, "root"), m, t) : t \in Nodes(m)}

StoreLeaves(p) ==
  {<<Append(p, "save"), "bool", IF save THEN "true" ELSE "false">>,
   <<Append(p, "length"), "num", ToString(Count)>>}
  \cup EmptyObj(Append(p, "docs"), docs)
  \cup UNION {EmptyObj(p \o <<"docs", r>>, docs[r]) : r \in Keys(docs)}
  \cup UNION {{<<p \o <<"docs", r, n>>, "str", docs[r][n]>> : n \in Keys(docs[r])} : r \in Keys(docs)}
  \cup EmptyObj(Append(p, "docInfo"), info)
  \cup UNION {EmptyObj(p \o <<"docInfo", r>>, info[r]) : r \in Keys(info)}
  \cup UNION {{<<p \o <<"docInfo", r, f>>, "num", ToString(info[r][f])>> : f \in Keys(info[r])} : r \in Keys(info)}

Leaves(langName, stages) ==
  StrArr(<<"fields">>, Names)
  \cup StrArr(<<"pipeline">>, stages)
  \cup {<< <<"ref">>, "str", refn>>, << <<"version">>, "str", "0.9.5">>, << <<"lang">>, "str", langName>>}
  \cup EmptyObj(<<"index">>, post)
  \cup UNION {TrieLeaves(<<"index", f>>, post[f]) : f \in Keys(post)}
  \cup StoreLeaves(<<"documentStore">>)

(*--------------------------- reading the leaves back ---------------------------*)
(* What a reader of the layout, which knows nothing of the index, makes of it.       *)
Below(L, p) == {x \in L : Len(x[1]) > Len(p) /\ SubSeq(x[1], 1, Len(p)) = p}
TextAt(L, p) == (CHOOSE x \in L : x[1] = p)[3]
ReadList(L, p) == [i \in 1..Cardinality({x \in Below(L, p) : x[2] = "str"}) |-> TextAt(L, Append(p, "#" \o ToString(i - 1)))]
(* The members of an object, by the names below it.                                   *)
Members(L, p) == {x[1][Len(p) + 1] : x \in Below(L, p)}
ReadTexts(L, p) == [n \in Members(L, p) |-> TextAt(L, Append(p, n))]
ReadRecords(L, p) == [r \in Members(L, p) |-> ReadTexts(L, Append(p, r))]
(* A member of a node is its documents, its df, or else the node of a character.      *)
RECURSIVE ReadNodes(_, _, _)
ReadNodes(L, p, t) ==
  {[t |-> t, df |-> TextAt(L, Append(p, "df")), docs |-> {<<d, TextAt(L, p \o <<"docs", d, "tf">>)>> : d \in Members(L, Append(p, "docs"))}]}
  \cup UNION {ReadNodes(L, Append(p, ch), Append(t, ch)) : ch \in Members(L, p) \ {"docs", "df"}}

Written(m) == [k \in Keys(m) |-> ToString(m[k])]
NodesOf(m) == {[t |-> t, df |-> ToString(Cardinality(Keys(GetD(m, t, Empty)))),
                docs |-> {<<d, ToString(m[t][d])>> : d \in Keys(GetD(m, t, Empty))}] : t \in Nodes(m)}
ReadsBack(L, langName, stages) ==
  /\ ReadList(L, <<"fields">>) = Names /\ ReadList(L, <<"pipeline">>) = stages
  /\ TextAt(L, <<"ref">>) = refn /\ TextAt(L, <<"lang">>) = langName
  /\ TextAt(L, <<"documentStore", "save">>) = (IF save THEN "true" ELSE "false")
  /\ TextAt(L, <<"documentStore", "length">>) = ToString(Cardinality(Keys(docs)))
  /\ ReadRecords(L, <<"documentStore", "docs">>) = docs
  /\ ReadRecords(L, <<"documentStore", "docInfo">>) = [r \in Keys(info) |-> Written(info[r])]
  /\ Members(L, <<"index">>) = Keys(post)
  /\ \A f \in Keys(post) : ReadNodes(L, <<"index", f, "root">>, <<>>) = NodesOf(post[f])
(* No value at two places, none below another.                                        *)
OneValuePerPath(L) == \A x, y \in L : x[1] = y[1] => x = y
NoneBelow(L) == \A x, y \in L : x # y => ~(Len(x[1]) < Len(y[1]) /\ SubSeq(y[1], 1, Len(x[1])) = x[1])
===============================================================================
