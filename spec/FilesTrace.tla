----------------------------- MODULE FilesTrace -----------------------------
(* Recorded files. *)
EXTENDS Files, Judge
VARIABLES l, judged

Results(q) == IF q.break < 0 THEN {Result(q)} ELSE BrokenResults(q, q.size, q.break)
Check(e, x) ==
  << <<"panic", ~e.o.panic>>,
     <<"result", e.o.result \in Results(e.q)>>,
     <<"asked", Opens(e.q.entry) => e.o.asked = x.asked>>,
     <<"prefix", e.o.prefix>>,
     <<"wire", e.q.break >= 0 \/ e.o.wire = "ok">>,
     <<"status", e.q.break >= 0 \/ e.o.status = x.status>>,
     <<"type", e.q.break >= 0 \/ e.o.type \in x.types>>,
     <<"body", e.q.break >= 0 \/ IF x.body = TheFile THEN e.o.whole ELSE e.o.body = x.body.d>>,
     <<"filtered", e.q.break >= 0 \/ e.o.filtered = x.filtered>>,
     <<"headers", e.q.break >= 0 \/ e.o.headers>>,
     <<"direct", IF Listed(e.ext) = {} THEN e.o.direct = <<>> ELSE Len(e.o.direct) = 1 /\ e.o.direct[1] \in Listed(e.ext)>> >>

Init == l \in DOMAIN Trace /\ judged = FALSE
Next ==
  /\ ~judged /\ judged' = TRUE /\ UNCHANGED l
  /\ LET e == Trace[l]  x == Response(e.q) IN Report(l, Bad(Check(e, x)), x)
Spec == Init /\ [][Next]_<<l, judged>>
=============================================================================
