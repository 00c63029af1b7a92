---------------------------- MODULE BuilderTrace ----------------------------
(* Recorded random histories of building steps, and what the routers did. *)
EXTENDS Builder, Judge

VARIABLES l, judged

Table(e) == Tagged(ApplyAll(EmptyTable(e.kind), e.kind, <<>>, <<>>, e.ops), e.tag)

Vars(offers) == [i \in DOMAIN offers |-> [id |-> offers[i].id, status |-> offers[i].status, vars |-> ToSet(offers[i].vars)]]

Agree(e, t, p) ==
  LET x == Ask(t, e.kind, p.path, p.method, p.status0)
  IN << Vars(p.offers) = x.offers, p.winner = x.winner, p.status = x.status >> = <<TRUE, TRUE, TRUE>>

Check(e, t) ==
  << <<"panic", e.panic = "">>,
     <<"probes", e.panic # "" \/ \A i \in DOMAIN e.probes : Agree(e, t, e.probes[i])>>,
     <<"lookups", e.panic # "" \/ \A i \in DOMAIN e.lookups : e.lookups[i].found = Found(t, e.lookups[i].p)>> >>

Init == l \in DOMAIN Trace /\ judged = FALSE
Next ==
  /\ ~judged /\ judged' = TRUE /\ UNCHANGED l
  /\ LET e == Trace[l]
         t == Table(e)
         bad == Bad(Check(e, t))
     IN Report(l, bad, IF bad = {} THEN <<>> ELSE [i \in DOMAIN e.probes |-> Ask(t, e.kind, e.probes[i].path, e.probes[i].method, e.probes[i].status0)])
Spec == Init /\ [][Next]_<<l, judged>>
=============================================================================
