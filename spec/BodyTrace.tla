----------------------------- MODULE BodyTrace -----------------------------
(* Recorded readers of bodies. Each of e.ops is [op, n, got, end, params,
   offered, entries], where op is "read", "fill", "all", "form", "offer" or
   "multi". *)
EXTENDS Body, Judge
VARIABLES l, judged

(* the state after the operations that follow the specification, and the fields that don't *)
RECURSIVE Walk(_, _, _)
(* The multipart parser isn't ours, and may give up when it gets its input
   in small pieces. What it gave until then has to be right. *)
EntriesFine(q, entries) ==
  IF q.gaveup THEN ~q.exact /\ Len(entries) <= Len(q.parts) /\ entries = SubSeq(q.parts, 1, Len(entries)) ELSE entries = q.parts
Walk(q, ops, s) ==
  IF ops = <<>> THEN [s |-> s, bad |-> {}]
  ELSE LET o == Head(ops) IN
    CASE o.op = "read" ->
           IF ReadAllowed(q, s, o.n, o.got, o.end) THEN Walk(q, Tail(ops), After_(s, o.got, o.end)) ELSE [s |-> s, bad |-> {"got"}]
      [] o.op \in {"fill", "all"} ->
           LET x == IF o.op = "fill" THEN Fill(q, s, o.n) ELSE All(q, s) IN
           IF x.got = o.got /\ x.end = o.end THEN Walk(q, Tail(ops), After_(s, o.got, o.end)) ELSE [s |-> s, bad |-> {"got"}]
      [] o.op = "form" ->
           LET x == Form(q, s) IN
           IF x.end = o.end /\ x.params = ToSet(o.params) /\ Cardinality(x.params) = Len(o.params) THEN Walk(q, Tail(ops), After_(s, s.rest, o.end)) ELSE [s |-> s, bad |-> {"params"}]
      [] o.op = "offer" -> IF o.offered = (Offered(q) # <<>>) THEN Walk(q, Tail(ops), s) ELSE [s |-> s, bad |-> {"offered"}]
      [] o.op = "multi" ->
           IF o.offered # (Offered(q) # <<>>) THEN [s |-> s, bad |-> {"offered"}]
           ELSE IF ~o.offered THEN Walk(q, Tail(ops), s)
           ELSE [s |-> s, bad |-> IF EntriesFine(q, o.entries) THEN {} ELSE {"entries"}]

Multied(ops) == \E i \in DOMAIN ops : ops[i].op = "multi" /\ ops[i].offered
Check(e, w) ==
  << <<"panic", ~e.panic>>,
     <<"got", "got" \notin w.bad>>, <<"params", "params" \notin w.bad>>, <<"offered", "offered" \notin w.bad>>, <<"entries", "entries" \notin w.bad>>,
     <<"content", ~Multied(e.ops) \/ e.q.content = Encode(e.q.parts, Offered(e.q)[1])>>,
     <<"wire", e.wire = "ok">>,
     <<"next", w.bad # {} \/ Multied(e.ops) \/ ~Drained(e.q, w.s) \/ e.next>> >>
Init == l \in DOMAIN Trace /\ judged = FALSE
Next ==
  /\ ~judged /\ judged' = TRUE /\ UNCHANGED l
  /\ LET e == Trace[l]  w == Walk(e.q @@ [gaveup |-> e.gaveup, exact |-> e.exact], e.ops, Fresh(e.q)) IN Report(l, Bad(Check(e, w)), w.s)
Spec == Init /\ [][Next]_<<l, judged>>
=============================================================================
