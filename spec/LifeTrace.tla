----------------------------- MODULE LifeTrace -----------------------------
(* Recorded lives of responses, with random handlers and filters. *)
EXTENDS LifeCheck

VARIABLES l, judged

Header0(hname) == IF hname = "x-h" THEN "" ELSE "default"

Init == l \in DOMAIN Trace /\ judged = FALSE
Next ==
  /\ ~judged /\ judged' = TRUE /\ UNCHANGED l
  /\ LET x == Seen(RunWith(Trace[l].filters, Header0(Trace[l].hname), Trace[l].prog)) IN Report(l, Bad(LifeCheck(Trace[l], x)), x)
Spec == Init /\ [][Next]_<<l, judged>>
=============================================================================
