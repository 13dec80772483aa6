-------------------------------- MODULE MCTrie ---------------------------------
EXTENDS Trie
TokensSmall == {<<>>, <<"a">>, <<"a", "b">>, <<"b">>}
TokensDeep == {<<>>, <<"a">>, <<"a", "b">>, <<"a", "b", "a">>, <<"a", "a">>}
===============================================================================
