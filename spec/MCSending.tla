------------------------------ MODULE MCSending ------------------------------
EXTENDS Sending, FiniteSets, TLC, Json

CONSTANTS Values(_), Statuses

VARIABLES value, rest, status0, status, sent

RECURSIVE Nested(_, _)
Nested(S, n) == IF n = 0 THEN S
                ELSE LET m == Nested(S, n - 1)
                     IN m \cup {[t |-> t, v |-> v] : t \in {"ok", "err", "some"}, v \in m}
Data(d) == [t |-> "data", d |-> d]
Io(kind, msg) == [t |-> "io", kind |-> kind, msg |-> msg]
Leafs == {Data(<<>>), Data(<<97, 98>>), Data(<<255, 0, 13, 10>>), [t |-> "none"], Io("notfound", <<110, 102>>), Io("other", <<111>>), Io("denied", <<100, 101>>),
          Io("exists", <<>>), Io("eof", <<101>>), Io("notfound", <<>>)}
QuickValues(d) == Nested(Leafs, 4)
ThoroughValues(d) == Nested(Leafs, 6)

Init == value \in Values(0) /\ rest = value /\ status0 \in Statuses /\ status = status0 /\ sent = FALSE
UnpackStep == /\ ~sent /\ Layered(rest)
              /\ LET u == Unpack(rest, status) IN rest' = u.v /\ status' = u.status
              /\ UNCHANGED <<value, status0, sent>>
Send == /\ ~sent /\ ~Layered(rest)
        /\ status' = Final(rest, status).status /\ sent' = TRUE /\ UNCHANGED <<value, rest, status0>>
        /\ PrintT(ToJson([value |-> value, status0 |-> status0, response |-> Response(value, status0)]))
Next == UnpackStep \/ Send
Spec == Init /\ [][Next]_<<value, rest, status0, status, sent>>

(* the steps and the equation agree *)
Composed == Sent(rest, status) = Sent(value, status0) \/ sent
(* the status is the one set beforehand, or set by a rule *)
Documented == sent => status \in {status0, 200, 404, 500}
Absent == sent /\ rest.t = "none" => status = 404
RECURSIVE Rules(_)
Rules(v) == IF v.t \in {"ok", "err"} THEN 1 + Rules(v.v) ELSE IF v.t = "some" THEN Rules(v.v) ELSE 0
PlainIsUnchanged == sent /\ Rules(value) = 0 /\ rest.t = "data" => status = status0
=============================================================================
