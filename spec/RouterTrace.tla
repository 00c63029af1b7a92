---------------------------- MODULE RouterTrace ----------------------------
(* Recorded dispatches of random requests by random routers. *)
EXTENDS Routing, Judge

VARIABLES l, judged

Expected(e) ==
  LET t == [i \in DOMAIN e.table |->
              LET r == e.table[i] IN [Reg(r.pat, r.method, r.id, r.accept, r.rej) EXCEPT !.on = r.on]]
      segs == Segments(e.path)
      nodes == NodesOf(t)
      d == Dispatch(t, nodes, segs, e.method, e.kind, e.status0)
  IN [offers |-> d.offers, winner |-> d.winner, status |-> d.status,
      links |-> IF e.linking THEN Links(t, nodes, segs, e.method, e.kind) ELSE {},
      targets |-> IF e.linking THEN Targets(t, nodes, segs, e.method, e.kind) ELSE {}]

Same(observed, expected) ==
  /\ Len(observed) = Len(expected)
  /\ \A i \in DOMAIN observed :
       /\ observed[i].id = expected[i].id
       /\ observed[i].status = expected[i].status
       /\ ToSet(observed[i].vars) = expected[i].vars
       /\ Len(observed[i].vars) = Cardinality(expected[i].vars)

Check(e, x) ==
  << <<"wire", e.wire = "ok">>,
     <<"order", [i \in DOMAIN e.offers |-> e.offers[i].id] = [i \in DOMAIN x.offers |-> x.offers[i].id]>>,
     <<"winner", e.winner = x.winner>>,
     <<"status", e.status = x.status>>,
     <<"vars", Same(e.offers, x.offers)>>,
     <<"restored", e.restored>>,
     <<"links", e.sorted /\ \A i \in DOMAIN e.links : ToSet(e.links[i]) = x.links /\ Len(e.links[i]) = Cardinality(x.links)>>,
     <<"targets", \A i \in DOMAIN e.targets :
                     /\ Len(e.targets[i]) = Cardinality(x.targets)
                     /\ \A n \in DOMAIN e.targets[i] : LET g == e.targets[i][n] IN \E t \in x.targets : t[1] = g[1] /\ g[2] \in t[2]>>,
     <<"modes", e.modes>>, <<"mock", e.mock>> >>

Init == l \in DOMAIN Trace /\ judged = FALSE
Next ==
  /\ ~judged /\ judged' = TRUE /\ UNCHANGED l
  /\ LET x == Expected(Trace[l]) IN Report(l, Bad(Check(Trace[l], x)), x)
Spec == Init /\ [][Next]_<<l, judged>>
=============================================================================
