---------------------------- MODULE SendingTrace ----------------------------
EXTENDS Sending, Judge
VARIABLES l, judged
Check(e, x) ==
  << <<"panic", ~e.panic>>, <<"wire", e.well = "ok">>, <<"status", e.status = x.status>>, <<"body", e.body = x.body>>, <<"ok", e.ok = x.ok>>,
     <<"headers", e.headers>> >>
Init == l \in DOMAIN Trace /\ judged = FALSE
Next ==
  /\ ~judged /\ judged' = TRUE /\ UNCHANGED l
  /\ LET x == Response(Trace[l].value, Trace[l].status0) IN Report(l, Bad(Check(Trace[l], x)), x)
Spec == Init /\ [][Next]_<<l, judged>>
=============================================================================
