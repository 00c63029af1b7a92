-------------------------------- MODULE Mock --------------------------------
(***************************************************************************)
(* Requests and responses without a connection. A mocked context is what   *)
(* it was made from and nothing more, and a mocked response is one where   *)
(* everything is taken.                                                    *)
(*                                                                         *)
(* A response is "open" at first, where its status, headers and storage    *)
(* may be changed, and may then be streamed as "chunked" or "raw" until    *)
(* it's "done". A value that is sent is always taken as a whole, but a     *)
(* file that can't be opened leaves the response as it was.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Fresh == [phase |-> "open", status |-> 200, headers |-> {}, stored |-> 0, left |-> 0]

WithHeader(h, name, value) == {p \in h : p[1] # name} \cup {<<name, value>>}
NoHeader(h, name) == {p \in h : p[1] # name}

Done(s) == [s |-> [s EXCEPT !.phase = "done"], ok |-> TRUE, n |-> 0]
Fine(s, n) == [s |-> s, ok |-> TRUE, n |-> n]

Opened(s, op) ==
  CASE op.o = "status" -> Fine([s EXCEPT !.status = op.n], 0)
    [] op.o = "header" -> Fine([s EXCEPT !.headers = WithHeader(@, op.n, op.d)], 0)
    [] op.o = "unheader" -> Fine([s EXCEPT !.headers = NoHeader(@, op.n)], 0)
    [] op.o = "store" -> Fine([s EXCEPT !.stored = op.n], 0)
    [] op.o = "nofile" -> [s |-> s, ok |-> FALSE, n |-> 0]
    [] op.o \in {"data", "ok", "err", "none", "io", "file", "drop"} -> Done(s)
    [] op.o = "chunked" -> Fine([s EXCEPT !.phase = "chunked"], 0)
    [] op.o = "raw" -> Fine([s EXCEPT !.phase = "raw", !.left = op.n], 0)

Streamed(s, op) ==
  CASE op.o \in {"try", "quiet", "write_all"} -> Fine([s EXCEPT !.left = @ - Len(op.d)], 0)
    [] op.o = "write" -> Fine([s EXCEPT !.left = @ - Len(op.d)], Len(op.d))
    [] op.o = "flush" -> Fine(s, 0)
    [] op.o = "store" -> Fine([s EXCEPT !.stored = op.n], 0)
    [] op.o \in {"end", "drop"} -> Done(s)

Step(s, op) == IF s.phase = "open" THEN Opened(s, op) ELSE Streamed(s, op)

(* what can be seen of it *)
Seen(s) ==
  CASE s.phase = "open" -> [status |-> s.status, headers |-> s.headers, stored |-> s.stored]
    [] s.phase = "chunked" -> [status |-> 0, headers |-> {}, stored |-> s.stored]
    [] OTHER -> [status |-> 0, headers |-> {}, stored |-> 0]

Course(ops) ==
  LET R[i \in 0..Len(ops)] == IF i = 0 THEN Fine(Fresh, 0) ELSE LET r == R[i - 1] IN Step(r.s, ops[i])
  IN [i \in 1..Len(ops) |-> LET r == R[i] IN [ok |-> r.ok, n |-> r.n, seen |-> Seen(r.s)]]

(* a context; its body has nothing in it, not even for the types that have parts *)
Types == {"multipart/form-data; boundary=b", "multipart/form-data; charset=utf-8; boundary=b", "multipart/form-data", "multipart/form-data; charset=utf-8",
          "multipart/mixed; boundary=b", "text/plain; boundary=b", "application/x-www-form-urlencoded"}
Context(method, path, headers) ==
  [method |-> method, path |-> path, headers |-> headers, query |-> {}, variables |-> {}, links |-> 0, fragment |-> FALSE,
   body |-> <<>>, multipart |-> FALSE, form |-> {}, version |-> "HTTP/1.1"]
=============================================================================
