---------------------------- MODULE FaultyTrace ----------------------------
(* Recorded responses on connections that break. *)
EXTENDS Faulty, Judge
VARIABLES l, judged
Check(e, x) ==
  << <<"results", Agree(e.sink, e.ops, e.cap, x.results, e.results)>>,
     <<"out", Refused(e.sink, e.ops) \/ e.out = x.out>>,
     <<"panic", ~e.panic>> >>
Init == l \in DOMAIN Trace /\ judged = FALSE
Next ==
  /\ ~judged /\ judged' = TRUE /\ UNCHANGED l
  /\ LET e == Trace[l]
         x == Run(e.sink, e.ops, e.cap)
     IN Report(l, Bad(Check(e, x)), x)
Spec == Init /\ [][Next]_<<l, judged>>
=============================================================================
