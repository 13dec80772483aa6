------------------------------- MODULE Registry --------------------------------
(* The built-in languages: codes, names, and the names of their pipeline stages,    *)
(* which elasticlunr.js looks up when it loads an index.                            *)
EXTENDS Maps

Three(c) == <<"trimmer-" \o c, "stopWordFilter-" \o c, "stemmer-" \o c>>
Lg(c, n, st) == c :> [code |-> c, name |-> n, stages |-> st]

Builtin ==
  Lg("en", "English", <<"trimmer", "stopWordFilter", "stemmer">>)
  @@ Lg("ar", "Arabic", <<"stemmer-ar">>)
  @@ Lg("zh", "Chinese", Three("zh"))
  @@ Lg("da", "Danish", Three("da"))
  @@ Lg("du", "Dutch", Three("du"))
  @@ Lg("fi", "Finnish", Three("fi"))
  @@ Lg("fr", "French", Three("fr"))
  @@ Lg("de", "German", Three("de"))
  @@ Lg("hu", "Hungarian", Three("hu"))
  @@ Lg("it", "Italian", Three("it"))
  @@ Lg("ja", "Japanese", <<"trimmer-ja", "stemmer-ja">>)
  @@ Lg("ko", "Korean", Three("ko"))
  @@ Lg("no", "Norwegian", Three("no"))
  @@ Lg("pt", "Portuguese", Three("pt"))
  @@ Lg("ro", "Romanian", Three("ro"))
  @@ Lg("ru", "Russian", Three("ru"))
  @@ Lg("es", "Spanish", Three("es"))
  @@ Lg("sv", "Swedish", Three("sv"))
  @@ Lg("tr", "Turkish", Three("tr"))

(* The languages of the harness.                                                    *)
Custom == Lg("rw", "Raw \"\\ langé", <<>>) @@ Lg("tg", "Tagging", <<"dropX", "suffix">>)
          \* these have the names and codes of others
          @@ Lg("m1", "English", <<>>) @@ Lg("m2", "German", <<"trimmer-de", "suffix">>)
          @@ Lg("m3", "", <<>>) @@ Lg("m4", "Raw", <<"trimmer", "suffix">>)
          @@ Lg("m5", "Klingon", <<"trimmer-tlhx", "suffix">>) @@ Lg("m6", "english", <<"trimmer-EN", "suffix">>)
          @@ Lg("m7", "日本", <<"trimmer-", "suffix">>) @@ Lg("m8", "Japanese", <<"trimmer-ja", "suffix">>)
          @@ Lg("m9", "Chinese", <<>>)
          \* these do something else than those of which they have all names
          @@ Lg("t5", "Nested", <<"dropX", "nested", "suffix">>)
          @@ Lg("t2", "Tagging", <<"dropX", "suffix">>) @@ Lg("t3", "Tagging", <<"dropX", "suffix">>) @@ Lg("t4", "English", <<"trimmer", "stopWordFilter", "stemmer">>)

Described == Builtin @@ Custom

Upper == ("a" :> "A") @@ ("d" :> "D") @@ ("e" :> "E") @@ ("f" :> "F") @@ ("h" :> "H") @@ ("i" :> "I")
         @@ ("j" :> "J") @@ ("k" :> "K") @@ ("n" :> "N") @@ ("o" :> "O") @@ ("p" :> "P") @@ ("r" :> "R")
         @@ ("s" :> "S") @@ ("t" :> "T") @@ ("u" :> "U") @@ ("v" :> "V") @@ ("z" :> "Z")
Letters == Keys(Upper)
Cases(x) == {x, Upper[x]}
(* A code in any letter case.                                                       *)
CaseVariants(c) == LET xy == CHOOSE xy \in Letters \X Letters : xy[1] \o xy[2] = c IN
                   {a \o b : a \in Cases(xy[1]), b \in Cases(xy[2])}

(* What a registry with the given languages enabled answers.                        *)
ByCode(enabled, s) == {c \in enabled : s \in CaseVariants(c)}
ByName(enabled, s) == {c \in enabled : Builtin[c].name = s}

CodesDistinct == \A c, d \in Keys(Builtin) : CaseVariants(c) \cap CaseVariants(d) # {} => c = d
NamesDistinct == \A c, d \in Keys(Builtin) : Builtin[c].name = Builtin[d].name => c = d
===============================================================================
