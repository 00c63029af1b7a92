------------------------------ MODULE Sending ------------------------------
(***************************************************************************)
(* What is sent for a higher level value. A value is one of                *)
(*   [t |-> "data", d]          anything that is plain data                *)
(*   [t |-> "ok", v], [t |-> "err", v]       Result                        *)
(*   [t |-> "some", v], [t |-> "none"]       Option                        *)
(*   [t |-> "io", kind, msg]    std::io::Error, kind "notfound" or another *)
(* and is taken apart one layer at a time, where each layer may set the    *)
(* status.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

Bodyless(status) == status \in {204, 304}

Unpack(v, status) ==
  CASE v.t = "ok" -> [v |-> v.v, status |-> 200]
    [] v.t = "err" -> [v |-> v.v, status |-> 500]
    [] v.t = "some" -> [v |-> v.v, status |-> status]

Layered(v) == v.t \in {"ok", "err", "some"}

(* the innermost value *)
Final(v, status) ==
  CASE v.t = "data" -> [status |-> status, body |-> v.d]
    [] v.t = "none" -> [status |-> 404, body |-> <<>>]
    [] v.t = "io" -> [status |-> IF v.kind = "notfound" THEN 404 ELSE status, body |-> v.msg]

RECURSIVE Sent(_, _)
Sent(v, status) == IF Layered(v) THEN LET u == Unpack(v, status) IN Sent(u.v, u.status) ELSE Final(v, status)

(* there is no body with some statuses, which is an error unless it's empty *)
Response(v, status) ==
  LET x == Sent(v, status)
  IN [status |-> x.status, body |-> IF Bodyless(x.status) THEN <<>> ELSE x.body, ok |-> ~Bodyless(x.status) \/ x.body = <<>>]
=============================================================================
