-------------------------- MODULE PathCheckTrace --------------------------
EXTENDS PathCheck, Judge
VARIABLES l, judged
Check(e) ==
  << <<"verdict", e.verdict = Verdict(e.path)>>,
     <<"inside", e.verdict # "" \/ Within(<<<<98>>>>, Location(<<<<98>>>>, e.path))>> >>
Init == l \in DOMAIN Trace /\ judged = FALSE
Next == /\ ~judged /\ judged' = TRUE /\ UNCHANGED l
        /\ Report(l, Bad(Check(Trace[l])), Verdict(Trace[l].path))
Spec == Init /\ [][Next]_<<l, judged>>
=============================================================================
