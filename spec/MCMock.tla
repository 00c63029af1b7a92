------------------------------- MODULE MCMock -------------------------------
(* Everything that can be done with a mocked response, and some contexts. *)
EXTENDS Mock, TLC, Json

CONSTANTS Depth, Pieces(_)

VARIABLES context, ops, s, seen
vars == <<context, ops, s, seen>>

QuickPieces(d) == {<<>>, <<97, 255>>}
ThoroughPieces(d) == {<<>>, <<97>>, <<98, 255, 99>>}

Plain == [method |-> "GET", path |-> <<47, 97>>, headers |-> {}]
Contexts == {Plain} \cup {[Plain EXCEPT !.headers = {<<"content-type", t>>, <<"x-1", "y">>}] : t \in Types} \cup
  {[method |-> m, path |-> p, headers |-> h] :
     m \in {"POST", "PURGE"}, p \in {<<>>, <<42>>, <<47, 37, 52, 49, 47>>, <<47, 97, 63, 98, 61, 99, 35, 100>>, <<47, 195, 165>>},
     h \in {{}, {<<"content-type", "multipart/form-data; boundary=b">>, <<"content-length", "10">>}, {<<"content-type", "application/x-www-form-urlencoded">>, <<"x-a", "1">>}}}

Op(o, n, d) == [o |-> o, n |-> n, d |-> d]
OpenOps == {Op("status", n, <<>>) : n \in {404, 299}} \cup {Op("header", 1, p) : p \in {<<97>>, <<98>>}} \cup {Op("header", 2, <<97>>)}
           \cup {Op("unheader", n, <<>>) : n \in {1, 2}} \cup {Op("store", n, <<>>) : n \in {1, 2}}
           \cup {Op(o, 0, p) : o \in {"data", "ok", "err", "io", "file"}, p \in Pieces(0)}
           \cup {Op(o, 0, <<>>) : o \in {"none", "nofile", "drop", "chunked"}} \cup {Op("raw", n, <<>>) : n \in {0, 4}}
StreamOps == {Op(o, 0, p) : o \in {"try", "quiet", "write", "write_all"}, p \in Pieces(0)} \cup {Op(o, 0, <<>>) : o \in {"flush", "end", "drop"}}
Ops(v) ==
  CASE v.phase = "open" -> OpenOps
    [] v.phase = "chunked" -> StreamOps \cup {Op("store", 2, <<>>)}
    [] v.phase = "raw" -> {op \in StreamOps : Len(op.d) <= v.left}
    [] v.phase = "done" -> {}

Init == context \in Contexts /\ ops = <<>> /\ s = Fresh /\ seen = <<>>
Limit == IF context = Plain THEN Depth ELSE 1
Next == /\ Len(ops) < Limit
        /\ \E op \in Ops(s) :
             LET r == Step(s, op)
             IN ops' = Append(ops, op) /\ s' = r.s /\ seen' = Append(seen, [ok |-> r.ok, n |-> r.n, seen |-> Seen(r.s)]) /\ UNCHANGED context
Spec == Init /\ [][Next]_vars

Final == s.phase = "done" \/ Len(ops) = Limit
Printed == Final => PrintT(ToJson([ops |-> ops, seen |-> seen, context |-> context,
                                   sees |-> Context(context.method, context.path, context.headers)]))

(* the trace specification says the same *)
Functional == seen = Course(ops)
(* nothing but a missing file is an error *)
Taken == \A i \in DOMAIN ops : seen[i].ok <=> ops[i].o # "nofile"
(* a write takes what it was given *)
Everything == \A i \in DOMAIN ops : ops[i].o = "write" => seen[i].n = Len(ops[i].d)
(* what was set is there until something else is *)
Kept == \A i \in 2..Len(ops) :
          /\ seen[i].seen.status # 0 /\ ops[i].o # "status" => seen[i].seen.status = seen[i - 1].seen.status
          /\ seen[i].seen.status # 0 /\ ops[i].o \notin {"header", "unheader"} => seen[i].seen.headers = seen[i - 1].seen.headers
(* one value of each header *)
Single == \A p, q \in s.headers : p[1] = q[1] => p = q
=============================================================================
