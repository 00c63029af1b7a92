---------------------------- MODULE ParamsTrace ----------------------------
(* Recorded histories of collections. *)
EXTENDS Params, Judge
VARIABLES l, judged

Pairs(a) == ToSet(a)
Check(e, x, m) ==
  << <<"panic", ~e.panic>>,
     <<"returned", Len(e.after) = Len(x) /\ \A i \in DOMAIN x : e.after[i].r = x[i].r>>,
     <<"content", Len(e.after) = Len(x) /\ \A i \in DOMAIN x : Pairs(e.after[i].m) = x[i].m /\ Len(e.after[i].m) = Cardinality(x[i].m)>>,
     <<"access", \A i \in DOMAIN e.access : e.access[i].a.raw = Access(m, e.access[i].k).raw /\ e.access[i].a.has = Access(m, e.access[i].k).has
                                             /\ e.access[i].a.lossy = Access(m, e.access[i].k).lossy>>,
     <<"parsed", \A i \in DOMAIN e.access : e.access[i].a.parsed = Access(m, e.access[i].k).parsed>>,
     <<"alike", e.alike>> >>

Init == l \in DOMAIN Trace /\ judged = FALSE
Next ==
  /\ ~judged /\ judged' = TRUE /\ UNCHANGED l
  /\ LET e == Trace[l]  x == Course({}, e.ops, <<>>)  m == AfterAll({}, e.ops) IN Report(l, Bad(Check(e, x, m)), <<x, [i \in DOMAIN e.access |-> Access(m, e.access[i].k)]>>)
Spec == Init /\ [][Next]_<<l, judged>>
=============================================================================
