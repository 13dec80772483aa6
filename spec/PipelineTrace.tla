------------------------------ MODULE PipelineTrace ----------------------------
(* Recorded runs of a pipeline, with the calls its functions received.                *)
EXTENDS TraceBase

VARIABLES queue, spied

P == INSTANCE Pipeline WITH Queues <- {}, Inputs <- {}, fns <- queue, input <- <<>>, at <- <<>>, val <- <<>>, calls <- <<>>

(* A description [kind, argument, name]; wrapped plain functions are not spied upon.   *)
Fn(d) == IF d[3] = "wrap:dropx" THEN <<"dropif", <<"x">>>>
         ELSE IF d[3] = "wrap:app" THEN <<"app", <<"w">>>>
         ELSE <<d[1], d[2]>>
NameOf(d) == IF d[3] = "wrap:dropx" THEN "wrapDrop" ELSE IF d[3] = "wrap:app" THEN "wrapApp" ELSE "f" \o d[3]
Spied(d) == d[1] # "wrap"

Init == TInit /\ queue = <<>> /\ spied = {}
DoQueue == /\ IsEvent("queue")
           /\ queue' = [i \in DOMAIN Ev.fns |-> Fn(Ev.fns[i])]
           /\ spied' = {i \in DOMAIN Ev.fns : Spied(Ev.fns[i])}
           /\ Equal("serialized names", Ev.names, [i \in DOMAIN Ev.fns |-> NameOf(Ev.fns[i])])

DoRun == /\ IsEvent("run") /\ UNCHANGED <<queue, spied>>
         /\ Equal("result", Ev.out, P!Result(queue, Ev.in))
         /\ LET want == SelectSeq(P!CallsOf(queue, Ev.in), LAMBDA x : x[1] \in spied) IN
              Equal("calls", Counts(Ev.calls), Counts(want))

(* Very many tokens, written as pairs of a token and its number in a row.              *)
RECURSIVE Merged(_, _)
Merged(ps, i) ==
  IF i > Len(ps) THEN <<>>
  ELSE LET rest == Merged(ps, i + 1) IN
       IF rest # <<>> /\ rest[1][1] = ps[i][1] THEN <<<<ps[i][1], ps[i][2] + rest[1][2]>>>> \o Tail(rest)
       ELSE <<ps[i]>> \o rest
DoMany ==
  /\ IsEvent("rle") /\ UNCHANGED <<queue, spied>>
  /\ LET done == [i \in DOMAIN Ev.in |-> <<P!Result(queue, <<Ev.in[i][1]>>), Ev.in[i][2]>>]
         kept == SelectSeq(done, LAMBDA x : x[1] # <<>>)
     IN Equal("result", Ev.out, Merged([i \in DOMAIN kept |-> <<kept[i][1][1], kept[i][2]>>], 1))
  /\ LET each == [i \in DOMAIN Ev.in |-> Counts(SelectSeq(P!CallsOf(queue, <<Ev.in[i][1]>>), LAMBDA x : x[1] \in spied))]
         all == UNION {Keys(each[i]) : i \in DOMAIN each}
     IN Equal("calls", Rng(Ev.calls), {<<k, FoldSet(LAMBDA i, a : a + GetD(each[i], k, 0) * Ev.in[i][2], 0, DOMAIN each)>> : k \in all})

DoGroup == IsEvent("group") /\ queue' = <<>> /\ spied' = {}
Next == DoGroup \/ DoQueue \/ DoRun \/ DoMany \/ (Done /\ UNCHANGED <<queue, spied>>)
Spec == Init /\ [][Next]_<<tid, l, queue, spied>>
===============================================================================
