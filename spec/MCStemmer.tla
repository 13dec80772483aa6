-------------------------------- MODULE MCStemmer ------------------------------
EXTENDS PorterMachine

AllEndings == {Step2Rules[i][1] : i \in DOMAIN Step2Rules} \cup {Step3Rules[i][1] : i \in DOMAIN Step3Rules}
  \cup {Step4Rules[i][1] : i \in DOMAIN Step4Rules}
  \cup {SSES, IES, EED, ED, ING, ION, AT, BL, IZ, LL, <<115>>, <<115, 115>>, <<SmallY>>, <<SmallE>>, W("sion"), W("tion"), <<>>}
NoEndings == {<<>>}
LettersFew == {97, 101, 121, 98, 108, 115, 116, 119}       \* a e y b l s t w
LettersTwo == {97, 98}
LettersMore == LettersFew \cup {100, 103, 105, 110, 117, 120, 233}
===============================================================================
