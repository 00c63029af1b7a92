----------------------------- MODULE MockTrace -----------------------------
(* Recorded uses of mocked responses. *)
EXTENDS Mock, Judge
VARIABLES l, judged

Same(o, x) == o.ok = x.ok /\ o.n = x.n /\ o.seen.status = x.seen.status /\ o.seen.stored = x.seen.stored
              /\ ToSet(o.seen.headers) = x.seen.headers /\ Len(o.seen.headers) = Cardinality(x.seen.headers)
SameContext(o, x) == o.method = x.method /\ o.path = x.path /\ ToSet(o.headers) = x.headers /\ o.query = <<>> /\ o.variables = <<>> /\ o.links = 0
                     /\ o.fragment = x.fragment /\ o.body = x.body /\ o.multipart = x.multipart /\ o.form = <<>> /\ o.version = x.version
Check(e, x) ==
  << <<"panic", ~e.panic>>,
     <<"results", e.panic \/ (Len(e.seen) = Len(x) /\ \A i \in DOMAIN x : Same(e.seen[i], x[i]))>>,
     <<"context", e.panic \/ SameContext(e.sees, Context(e.context.method, e.context.path, ToSet(e.context.headers)))>>,
     <<"global", e.panic \/ e.global>> >>
Init == l \in DOMAIN Trace /\ judged = FALSE
Next ==
  /\ ~judged /\ judged' = TRUE /\ UNCHANGED l
  /\ LET e == Trace[l]  x == Course(e.ops) IN Report(l, Bad(Check(e, x)), x)
Spec == Init /\ [][Next]_<<l, judged>>
=============================================================================
