------------------------------ MODULE MCWriting ------------------------------
EXTENDS Writing, TLC, Json

CONSTANTS Pieces(_), Count, Sinks(_)

VARIABLES sink, pieces, given, pending, sent, body, failed
vars == <<sink, pieces, given, pending, sent, body, failed>>

RECURSIVE Upto(_, _)
Upto(S, n) == IF n = 0 THEN {<<>>} ELSE LET r == Upto(S, n - 1) IN r \cup {Append(q, e) : q \in {q \in r : Len(q) = n - 1}, e \in S}

QuickPieces(d) == {<<>>, <<97>>, <<10>>, <<98, 33, 99>>, <<120, 121, 10, 122, 195>>}
ThoroughPieces(d) == QuickPieces(d) \cup {<<255, 10>>, <<33>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9>>}
Chunked(fs) == [t |-> "chunked", fs |-> fs, n |-> 0]
Raw(n) == [t |-> "raw", fs |-> <<>>, n |-> n]
QuickSinks(d) == {Chunked(fs) : fs \in {<<>>, <<"double">>, <<"odd">>, <<"inc", "double">>, <<"abort">>, <<"abort", "double">>, <<"id", "odd", "inc">>}}
                 \cup {Raw(n) : n \in {0, 1, 4, 6, 9, 10, 15}}
ThoroughSinks(d) == {Chunked(fs) : fs \in Upto({"id", "inc", "double", "odd"}, 3)} \cup {Chunked(<<"abort">> \o fs) : fs \in Upto({"inc", "double", "odd"}, 2)}
                    \cup {Raw(n) : n \in 0..16}

Data == All(pieces)

Init == /\ sink \in Sinks(0) /\ pieces \in Upto(Pieces(0), Count)
        /\ given = 0 /\ pending = <<>> /\ sent = 0 /\ body = <<>> /\ failed = FALSE
(* the adapter is given another piece *)
Give == /\ ~failed /\ given < Len(pieces)
        /\ given' = given + 1 /\ pending' = pending \o pieces[given + 1]
        /\ UNCHANGED <<sink, pieces, sent, body, failed>>
(* it writes some of what it has *)
Push == /\ ~failed /\ pending # <<>>
        /\ \E k \in 1..Len(pending) :
             LET p == Put(sink, sent, SubSeq(pending, 1, k))
             IN /\ failed' = p.failed /\ sent' = sent + p.n /\ body' = body \o p.out
                /\ pending' = SubSeq(pending, p.n + 1, Len(pending))
        /\ UNCHANGED <<sink, pieces, given>>
Next == Give \/ Push
Spec == Init /\ [][Next]_vars

Over == failed \/ (given = Len(pieces) /\ pending = <<>>)
(* nothing is lost, repeated or reordered, however it's split *)
Same == Over => Fine(sink, Data, failed, body)
(* and what has been sent so far is always a beginning of it *)
Growing == Begins(body, Limit(sink, Data))
Printed == given = 0 =>
  PrintT(ToJson([sink |-> sink, pieces |-> pieces, failed |-> Fails(sink, Data), limit |-> Limit(sink, Data), data |-> Data]))
=============================================================================
