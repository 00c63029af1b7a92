----------------------------- MODULE LifeCheck -----------------------------
(* Comparing what was observed of a response with what is specified. *)
EXTENDS Life, Judge

ResultMatches(x, o) == x.op = o.op /\ x.res = o.res /\ (x.res = "filter" => o.err \in x.errs)
WriteOps == {"write", "write_all"}
Results(x, o, which) ==
  /\ Len(x) = Len(o)
  /\ \A i \in DOMAIN x : /\ (x[i].op \in WriteOps) = which => ResultMatches(x[i], o[i])
                         (* how much was accounted for *)
                         /\ which => x[i].n = o[i].n

LifeCheck(e, x) ==
  LET cutoff == x.crashed /\ ~x.whole
      unstarted == cutoff /\ x.status = 500 /\ x.body = <<>>
  IN << <<"storage", e.storage>>,
        <<"panic", ~e.unexpected>>,
        <<"crashed", e.crashed = x.crashed>>,
        <<"results", Results(x.results, e.results, FALSE)>>,
        <<"written", Results(x.results, e.results, TRUE)>>,
        <<"crashstatus", unstarted => e.status >= 400>>,
        <<"status", unstarted \/ e.status = x.status>>,
        <<"cutoff", cutoff /\ ~unstarted => e.bodyless \/ e.well # "ok">>,
        <<"wire", x.whole => e.well = "ok">>,
        <<"body", unstarted \/ e.body = x.body>>,
        <<"hdr", unstarted \/ x.aborted \/ e.hdr = x.hdr>>,
        <<"calls", unstarted \/ x.aborted \/ e.calls = x.calls>> >>
=============================================================================
