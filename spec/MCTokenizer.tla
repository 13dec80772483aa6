------------------------------- MODULE MCTokenizer -----------------------------
EXTENDS Tokenizer
(* a A - space, no-break space, ideographic space, Sigma, dot, I with dot, combining mark, n-dash *)
LettersQuick == {97, 65, 45, 32, 12288, 931}
LettersMore == {97, 65, 45, 32, 160, 12288, 931, 46, 304, 769, 8211}
===============================================================================
