---------------------------- MODULE GlobalTrace ----------------------------
(* Recorded histories of global data. *)
EXTENDS Global, Judge
VARIABLES l, judged

Check(e, first, x) ==
  << <<"panic", ~e.panic>>,
     <<"first", ToSet(e.first) = first>>,
     <<"old", Len(e.after) = Len(x) /\ \A i \in DOMAIN x : ToSet(e.after[i].old) = x[i].old>>,
     <<"content", Len(e.after) = Len(x) /\ \A i \in DOMAIN x : ToSet(e.after[i].m) = x[i].m>>,
     <<"alive", Len(e.after) = Len(x) /\ \A i \in DOMAIN x : e.after[i].alive = Cardinality(x[i].m)>>,
     <<"dropped", e.left = 0>>,
     <<"served", e.served = "" >> >>

Init == l \in DOMAIN Trace /\ judged = FALSE
Next ==
  /\ ~judged /\ judged' = TRUE /\ UNCHANGED l
  /\ LET e == Trace[l]  first == PutAll({}, e.built.pairs)  x == Course(first, e.inserts, <<>>) IN Report(l, Bad(Check(e, first, x)), <<first, x>>)
Spec == Init /\ [][Next]_<<l, judged>>
=============================================================================
