---------------------------- MODULE ConfigTrace ----------------------------
(* Recorded hosts and settings. *)
EXTENDS Config, Judge
VARIABLES l, judged

Hosts(e) == << <<"panic", ~e.panic>>, <<"address", e.a_seen = Address(e.a) /\ e.b_seen = Address(e.b)>>,
               <<"equal", e.equal = (Address(e.a) = Address(e.b))>>, <<"hash", e.equal => e.hash>>, <<"copy", e.copy>> >>
Texts(e) == << <<"panic", ~e.panic>>, <<"parsed", e.seen = Parsed(e.text)>> >>
Settings(e) ==
  << <<"panic", ~e.panic>>, <<"host", e.seen.host = Host(e.c)>>, <<"server", e.seen.server = ServerName(e.c)>>,
     <<"ctype", e.seen.ctype = ContentType(e.c)>>, <<"threads", e.seen.threads = e.c.threads>>,
     <<"free", e.seen.free = e.c.free>>, <<"cf", e.seen.cf = e.c.cf>>, <<"rf", e.seen.rf = e.c.rf>>, <<"global", e.seen.global>>,
     <<"wire", e.seen.wire = "ok">>,
     <<"limit", e.seen.limit = Limit(e.c, e.cores, e.c.open)>>,
     <<"closes", e.seen.closes = (e.c.free # Unset /\ e.c.free > Limit(e.c, e.cores, e.c.open))>>,
     <<"answered", e.seen.answered_server = ServerName(e.c) /\ e.seen.answered_ctype = ContentType(e.c)>>,
     <<"filtered", e.seen.cf_ran = e.c.cf /\ e.seen.rf_ran = e.c.rf>> >>
Check(e) == CASE e.kind = "hosts" -> Hosts(e) [] e.kind = "text" -> Texts(e) [] e.kind = "settings" -> Settings(e)
Expected(e) == CASE e.kind = "hosts" -> <<Address(e.a), Address(e.b)>> [] e.kind = "text" -> Parsed(e.text)
                 [] e.kind = "settings" -> <<Host(e.c), ServerName(e.c), ContentType(e.c), Limit(e.c, e.cores, e.c.open)>>

Init == l \in DOMAIN Trace /\ judged = FALSE
Next == ~judged /\ judged' = TRUE /\ UNCHANGED l /\ Report(l, Bad(Check(Trace[l])), Expected(Trace[l]))
Spec == Init /\ [][Next]_<<l, judged>>
=============================================================================
