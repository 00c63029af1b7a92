---------------------------- MODULE ServerTrace ----------------------------
(* Recorded histories of connections, with random requests and filters. *)
EXTENDS Server, LifeCheck

VARIABLES l, judged

Check(e, x) ==
  << <<"events", e.events = x.events>>,
     <<"truth", e.truth>>,
     <<"close", x.seen.crashed \/ ~x.sure \/ e.close = x.close>> >>
  \o LifeCheck(e, IF x.handled THEN x.seen ELSE [x.seen EXCEPT !.results = <<>>])

(* what's wrong in the rest of the steps *)
RECURSIVE Wrong(_, _, _, _, _)
Wrong(config, s, steps, k, acc) ==
  IF k > Len(steps) THEN acc
  ELSE LET step == steps[k]
           x == IF step.a = "finish" THEN Response(config, s, step.c) ELSE <<>>
           bad == IF step.a = "finish" THEN Bad(Check(step.seen, x)) ELSE {}
       IN Wrong(config, Do(config, s, step), steps, k + 1,
                IF bad = {} THEN acc ELSE [fields |-> acc.fields \cup bad, first |-> IF acc.fields = {} THEN [step |-> k, x |-> x] ELSE acc.first])

Init == l \in DOMAIN Trace /\ judged = FALSE
Next ==
  /\ ~judged /\ judged' = TRUE /\ UNCHANGED l
  /\ LET w == Wrong(Trace[l], Server0, Trace[l].steps, 1, [fields |-> {}, first |-> <<>>]) IN Report(l, w.fields, w.first)
Spec == Init /\ [][Next]_<<l, judged>>
=============================================================================
