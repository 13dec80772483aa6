------------------------------- MODULE MCPipeline ------------------------------
EXTENDS Pipeline, Json

CONSTANT Emit

Fns == {<<"id", <<>>>>, <<"drop", <<>>>>, <<"app", <<"x">>>>, <<"dropif", <<"a">>>>, <<"only", <<"a", "x">>>>, <<"tail", <<>>>>, <<"empty", <<>>>>, <<"dropempty", <<>>>>}
FnsFew == {<<"app", <<"x">>>>, <<"dropif", <<"a">>>>, <<"only", <<"a", "x">>>>, <<"tail", <<>>>>}
SeqsTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
QueuesAll == SeqsTo(Fns, 3)
QueuesFew == SeqsTo(FnsFew, 3)
Toks == {<<>>, <<"a">>, <<"a", "x">>}
InputsOne == {<<>>, <<<<"a">>, <<>>, <<"a", "x">>, <<"x">>, <<"a">>>>}
InputsTwo == SeqsTo(Toks, 2) \cup {<<<<"a">>, <<>>, <<"a", "x">>>>}
InputsAll == SeqsTo(Toks, 3)
Stay == UNCHANGED pvars

(* The results for the tests, from the machine's initial states.                      *)
EmitState == ~Emit \/ calls # <<>> \/ PrintT("@T " \o ToJson([fns |-> fns, input |-> input, out |-> Result(fns, input)]))
===============================================================================
