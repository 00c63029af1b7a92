----------------------------- MODULE WalkTrace -----------------------------
(* Recorded walks. *)
EXTENDS Walk, Judge
VARIABLES l, judged

Same(o, x) == o.get = x.get /\ o.empty = x.empty /\ o.rest = x.rest /\ ToSet(o.vars) = x.vars /\ Len(o.vars) = Cardinality(x.vars)
Check(e, segs, x) ==
  << <<"panic", ~e.panic>>,
     <<"segments", e.panic \/ e.segs = segs>>,
     <<"seen", e.panic \/ (Len(e.seen) = Len(x) /\ \A i \in DOMAIN x : Same(e.seen[i], x[i]))>>,
     <<"alike", e.panic \/ e.alike = "">> >>

Init == l \in DOMAIN Trace /\ judged = FALSE
Next ==
  /\ ~judged /\ judged' = TRUE /\ UNCHANGED l
  /\ LET e == Trace[l]  segs == AllSegments(e.parts)  x == Course(Fresh(segs), e.ops, e.names)
     IN Report(l, Bad(Check(e, segs, x)), <<segs, x>>)
Spec == Init /\ [][Next]_<<l, judged>>
=============================================================================
