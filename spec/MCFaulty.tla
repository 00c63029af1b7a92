------------------------------ MODULE MCFaulty ------------------------------
(* Responses on connections that break at any point, one operation at a time. *)
EXTENDS Faulty, TLC, Json

CONSTANTS Sinks(_), Held(_), Count, Pieces(_), Caps(_)

VARIABLES sink, ops, cap, s, results
vars == <<sink, ops, cap, s, results>>

Chunked(fs) == [t |-> "chunked", fs |-> fs, n |-> 0, held |-> FALSE]
Raw(n) == [t |-> "raw", fs |-> <<>>, n |-> n, held |-> FALSE]
Data(fs) == [t |-> "data", fs |-> fs, n |-> 0, held |-> FALSE]
File == [t |-> "file", fs |-> <<>>, n |-> 0, held |-> FALSE]

QuickSinks(d) == {Chunked(fs) : fs \in {<<>>, <<"double">>, <<"odd">>, <<"abort", "wrap">>, <<"inc", "wrap">>}} \cup {Raw(n) : n \in {0, 3, 4}}
                 \cup {Data(<<>>), Data(<<"double", "wrap">>), Data(<<"abort", "odd">>), File}
ThoroughSinks(d) == QuickSinks(d) \cup {Chunked(fs) : fs \in {<<"wrap">>, <<"odd", "double">>, <<"abort", "odd", "wrap">>}} \cup {Raw(n) : n \in 1..7} \cup {Data(<<"odd">>), Data(<<"wrap">>)}
QuickPieces(d) == {<<>>, <<98>>, <<97, 33, 99>>}
ThoroughPieces(d) == QuickPieces(d) \cup {<<65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81>>}
QuickCaps(d) == {-1} \cup 0..19
ThoroughCaps(d) == {-1} \cup 0..60

Operations == {[o |-> o, d |-> p] : o \in {"try", "quiet", "write", "write_all"}, p \in Pieces(0)} \cup {[o |-> "flush", d |-> <<>>]}
Finishing == {[o |-> o, d |-> <<>>] : o \in {"end", "drop"}}
AtOnce(k) == k.t \in {"data", "file"}

QuickHeld(d) == BOOLEAN
Init == /\ \E k \in Sinks(0) : \E h \in Held(0) : sink = [k EXCEPT !.held = h]
        /\ cap \in Caps(0)
        /\ ops = <<>> /\ s = Started(sink, cap) /\ results = <<>>

Finished == ops # <<>> /\ (AtOnce(sink) \/ ops[Len(ops)] \in Finishing)
Do(op) == LET r == IF op.o = "drop" THEN Final(sink, s, op) ELSE Step(sink, s, op)
          IN ops' = Append(ops, op) /\ s' = r.s /\ results' = Append(results, [ok |-> r.ok, n |-> r.n]) /\ UNCHANGED <<sink, cap>>
Next == /\ ~Finished
        /\ IF AtOnce(sink)
           THEN \E p \in Pieces(0) :
                  LET x == Run(sink, << [o |-> "try", d |-> p] >>, cap)
                  IN ops' = << [o |-> "try", d |-> p] >> /\ results' = x.results /\ s' = [s EXCEPT !.c.out = x.out, !.c.held = FALSE] /\ UNCHANGED <<sink, cap>>
           ELSE \/ Len(ops) < Count /\ \E op \in Operations : Do(op)
                \/ \E op \in Finishing : Do(op)
Spec == Init /\ [][Next]_vars

Out == Flushed(s.c).out
Endless == 1000000
(* what would have been sent on a connection that doesn't break *)
Ideal == Run(sink, ops, Endless)

(* the trace specification says the same *)
Functional == Finished => Run(sink, ops, cap) = [out |-> Out, results |-> results]
(* what is sent is the beginning of what would have been sent *)
Beginnings == Finished => Begins(Out, Ideal.out)
(* if every operation succeeds then everything is sent, *)
Honest == (Finished /\ ops[Len(ops)].o # "drop" /\ (\A i \in DOMAIN ops : ops[i].o # "quiet") /\ (\A i \in DOMAIN results : results[i].ok))
          => Out = Ideal.out
(* and they don't fail without a reason *)
Reason == Finished => \A i \in DOMAIN results : (~results[i].ok /\ Ideal.results[i].ok) => (cap < 0 \/ Len(Ideal.out) > cap)
(* nothing succeeds in sending anything once the connection is broken *)
Sends(op) == IF sink.t = "raw" THEN op.d # <<>>
             ELSE op.o = "end" \/ (op.o # "flush" /\ Filtered(PerByte(sink.fs), op.d) # <<>>)
NoMore == (~sink.held /\ ~AtOnce(sink) /\ ops # <<>>) =>
  LET i == Len(ops) IN (results[i].ok /\ Sends(ops[i])) => ~s.c.broken
Printed == Finished =>
  PrintT(ToJson([sink |-> sink, ops |-> ops, cap |-> cap, out |-> Out, refused |-> Refused(sink, ops),
                 results |-> [i \in DOMAIN results |-> [ok |-> results[i].ok, n |-> results[i].n,
                                                        known |-> ~Silent(sink, ops, cap, i), counts |-> Counts(ops[i])]]]))
=============================================================================
