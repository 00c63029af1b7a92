---------------------------- MODULE ComposeTrace ----------------------------
(* Recorded requests to random compositions of routers. *)
EXTENDS Compose, Judge

VARIABLES l, judged

Vars0 == {<< <<111, 117, 116, 101, 114>>, <<107, 101, 112, 116>> >>}
Expected(e) == Outcome(e.router, e.path, e.method, e.status0, Vars0)
Plain(log) == [i \in DOMAIN log |-> [id |-> log[i].id, status |-> log[i].status, vars |-> log[i].vars]]
Log(s) == [i \in DOMAIN s |-> [id |-> s[i].id, status |-> s[i].status, vars |-> ToSet(s[i].vars)]]

Check(e, x) ==
  << <<"wire", e.wire = "ok">>,
     <<"log", Log(e.offers) = Plain(x.log)>>,
     <<"answered", e.answered = x.answered>>,
     <<"status", e.status = x.status>>,
     <<"sent", e.sent = x.sent>>,
     <<"restored", e.restored>>,
     (* each of them once, and what they lead to *)
     <<"links", e.ordered
                /\ Len(e.links) = Len(x.log)
                /\ \A i \in DOMAIN x.log : ToSet(e.links[i]) = x.log[i].links.all /\ Len(e.links[i]) = Cardinality(x.log[i].links.all)>>,
     <<"targets", Len(e.targets) = Len(x.log)
                  /\ \A i \in DOMAIN x.log :
                       /\ Len(e.targets[i]) = Cardinality(x.log[i].links.targets)
                       /\ \A n \in DOMAIN e.targets[i] : LET g == e.targets[i][n] IN \E t \in x.log[i].links.targets : t[1] = g[1] /\ g[2] \in t[2]>> >>

Init == l \in DOMAIN Trace /\ judged = FALSE
Next ==
  /\ ~judged /\ judged' = TRUE /\ UNCHANGED l
  /\ LET x == Expected(Trace[l]) IN Report(l, Bad(Check(Trace[l], x)), x)
Spec == Init /\ [][Next]_<<l, judged>>
=============================================================================
