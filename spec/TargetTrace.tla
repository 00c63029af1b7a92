---------------------------- MODULE TargetTrace ----------------------------
EXTENDS Target, Judge
VARIABLES l, judged

(* the last value of a name counts *)
Table(ps) == {ps[i] : i \in {i \in DOMAIN ps : \A j \in DOMAIN ps : j > i => ps[j][1] # ps[i][1]}}

Expected(e) == IF e.kind = "target" THEN Decoded(e.target) ELSE [params |-> Params(e.text), plain |-> Table(e.plain)]
Check(e, x) ==
  IF e.kind = "target" THEN
     << <<"wire", e.seen.wire = "ok">>, <<"form", e.seen.form>>, <<"same", e.seen.same>>, <<"status", e.seen.status = x.status>>,
        <<"handled", e.seen.handled = x.handled>>, <<"path", e.seen.path = x.parts.path>>, <<"fragment", e.seen.fragment = x.parts.fragment>>,
        <<"host", e.seen.host = x.host>>, <<"views", e.seen.views = x.views>>, <<"query", ToSet(e.seen.query) = x.parts.query /\ Len(e.seen.query) = Cardinality(x.parts.query)>> >>
  ELSE
     << <<"query", ToSet(e.query) = x.params /\ Len(e.query) = Cardinality(x.params)>>,
        <<"body", ToSet(e.body) = x.params /\ Len(e.body) = Cardinality(x.params)>>,
        (* the encoder isn't ours, so this is a round trip *)
        <<"roundtrip", e.encoded => x.params = x.plain>> >>
Init == l \in DOMAIN Trace /\ judged = FALSE
Next ==
  /\ ~judged /\ judged' = TRUE /\ UNCHANGED l
  /\ LET x == Expected(Trace[l]) IN Report(l, Bad(Check(Trace[l], x)), x)
Spec == Init /\ [][Next]_<<l, judged>>
=============================================================================
