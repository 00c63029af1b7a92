----------------------------- MODULE TextTrace -----------------------------
(* Recorded histories of values. *)
EXTENDS Utf8, Judge
VARIABLES l, judged

Check(e, x) ==
  << <<"panic", ~e.panic>>,
     <<"bytes", Len(e.after) = Len(x) /\ \A i \in DOMAIN x : e.after[i].bytes = x[i].bytes>>,
     <<"text", Len(e.after) = Len(x) /\ \A i \in DOMAIN x : e.after[i].text = x[i].text>>,
     <<"lossy", Len(e.after) = Len(x) /\ \A i \in DOMAIN x : e.after[i].lossy = x[i].lossy>>,
     <<"order", \A i \in DOMAIN e.compared : e.compared[i].order = Compare(x[Len(x)].bytes, e.compared[i].with)>>,
     <<"alike", e.alike>> >>

Init == l \in DOMAIN Trace /\ judged = FALSE
Next ==
  /\ ~judged /\ judged' = TRUE /\ UNCHANGED l
  /\ LET e == Trace[l]  x == History(e.start.d, e.edits, <<Facts(e.start.d)>>) IN Report(l, Bad(Check(e, x)), x)
Spec == Init /\ [][Next]_<<l, judged>>
=============================================================================
