---------------------------- MODULE WritingTrace ----------------------------
EXTENDS Writing, Judge
VARIABLES l, judged
Check(e, data) ==
  << <<"failed", e.failed = Fails(e.sink, data)>>,
     <<"body", IF e.failed THEN Begins(e.body, Limit(e.sink, data)) ELSE e.body = Limit(e.sink, data)>>,
     <<"wire", (e.sink.t = "raw" /\ Len(data) # e.sink.n) \/ e.well = "ok">>,
     <<"seen", e.failed \/ e.sink.t = "raw" \/ e.sink.fs = <<>> \/ e.seen = data>>,
     <<"count", e.failed \/ e.count = Len(data)>>,
     <<"panic", ~e.panic>> >>
Init == l \in DOMAIN Trace /\ judged = FALSE
Next ==
  /\ ~judged /\ judged' = TRUE /\ UNCHANGED l
  /\ LET e == Trace[l]
         data == All(e.pieces)
     IN Report(l, Bad(Check(e, data)), [failed |-> Fails(e.sink, data), body |-> Limit(e.sink, data)])
Spec == Init /\ [][Next]_<<l, judged>>
=============================================================================
