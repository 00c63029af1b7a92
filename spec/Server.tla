------------------------------- MODULE Server -------------------------------
(***************************************************************************)
(* The server: what happens to a request from when it's taken up until its *)
(* response is ended, and how connections are kept alive.                  *)
(*                                                                         *)
(* A request is [method, path, hdr, query, version, bad, close, prog],     *)
(* where path may be "*", bad is TRUE if the target is something that isn't served    *)
(* (an authority), close tells if the client asks for the connection to be *)
(* closed and prog is what the handler does if it's run (see Life).        *)
(*                                                                         *)
(* A context filter is [method, path, hdr, query, act, st], where the      *)
(* first four are new values ("" keeps the old one, and "-" removes hdr)   *)
(* and act is "next", "abort" (with st), "panic", or "boom", which is a    *)
(* panic if the header says so.                                            *)
(*                                                                         *)
(* A configuration is [threads, free, hname, cf, rf]. There is no          *)
(* keep-alive if free is -1. hname is the response header that is          *)
(* observed, and that the scripts may change.                              *)
(***************************************************************************)
EXTENDS Life, TLC

RoutePaths == {"/", "/a", "/b/c"}
Routes == {<<"DELETE", "/">>, <<"GET", "/a">>, <<"POST", "/a">>, <<"GET", "/b/c">>}

DefaultHeaders == {"Date", "Server", "Content-Type"}
(* told is TRUE if the client is told that the connection is closed before *)
(* anything else is done                                                   *)
Header0(hname, told) ==
  IF hname \in DefaultHeaders THEN "default" ELSE IF hname = "Connection" /\ told THEN "close" ELSE ""

New(new, old) == IF new = "" THEN old ELSE new
NewHdr(new, old) == IF new = "-" THEN "" ELSE New(new, old)

Context(q) == [method |-> q.method, path |-> q.path, hdr |-> q.hdr, query |-> IF q.path = "*" THEN "" ELSE q.query, version |-> q.version]
Modified(f, x) ==
  [x EXCEPT !.method = New(f.method, @), !.path = New(f.path, @), !.hdr = NewHdr(f.hdr, @), !.query = New(f.query, @)]

Event(who, x) == [who |-> who, method |-> x.method, path |-> x.path, hdr |-> x.hdr, query |-> x.query, version |-> x.version]

(* some only panic if they see a certain header *)
Acts(f, x) == IF f.act # "boom" THEN f.act ELSE IF x.hdr = "boom" THEN "panic" ELSE "next"

(* the context filters, one at a time *)
RECURSIVE FilterFrom(_, _, _, _)
FilterFrom(cf, i, x, events) ==
  IF i > Len(cf) THEN [act |-> "next", st |-> 0, x |-> x, events |-> events]
  ELSE LET f == cf[i]
           es == Append(events, Event(i, x))
           act == Acts(f, x)
       IN IF act = "next" THEN FilterFrom(cf, i + 1, Modified(f, x), es)
          ELSE [act |-> act, st |-> f.st, x |-> Modified(f, x), events |-> es]

Op(op, n) == [op |-> op, n |-> n, d |-> <<>>, h |-> ""]
Answer(status) == << Op("status", status), Op("drop", 0) >>
Nothing == << Op("drop", 0) >>
Panics == << Op("panic", 0) >>

KeepsAlive(config) == config.free >= 0

(* what is done, and by whom *)
Course(cf, q) ==
  IF q.bad THEN [events |-> <<>>, handled |-> FALSE, prog |-> Answer(400)]
  ELSE
  LET f == FilterFrom(cf, 1, Context(q), <<>>)
      quiet(prog) == [events |-> f.events, handled |-> FALSE, prog |-> prog]
  IN CASE f.act = "abort" -> quiet(Answer(f.st))
       [] f.act = "panic" -> quiet(Panics)
       [] f.x.path = "*" -> quiet(Nothing)
       [] <<f.x.method, f.x.path>> \in Routes ->
            [events |-> Append(f.events, Event(0, f.x)), handled |-> TRUE, prog |-> q.prog]
       [] f.x.path \in RoutePaths -> quiet(Answer(405))
       [] OTHER -> quiet(Answer(404))

Outcome(config, q) ==
  LET c == Course(config.cf, q)
      life == Seen(RunWith(config.rf, Header0(config.hname, ~KeepsAlive(config) \/ q.close), c.prog))
  IN [events |-> c.events, handled |-> c.handled, seen |-> life]

(***************************************************************************)
(* Connections. open is the set of open ones, over those of them that the  *)
(* client has been told about, and taken is a function from those with a   *)
(* request in progress to [q, close].                                      *)
(***************************************************************************)
(* the server wants to close it *)
Crowded(config, open) == KeepsAlive(config) /\ Cardinality(open) + config.free > config.threads

(* the client is told that it's closed *)
Closing(config, open, q) == ~KeepsAlive(config) \/ q.close \/ Crowded(config, open)

Server0 == [open |-> {}, over |-> {}, taken |-> <<>>]

Opened(s, c) == [s EXCEPT !.open = @ \cup {c}]
Closed(s, c) == [s EXCEPT !.open = @ \ {c}, !.over = @ \ {c}]
Taken(config, s, c, q) ==
  [s EXCEPT !.taken = [d \in DOMAIN @ \cup {c} |-> IF d = c THEN [q |-> q, close |-> Closing(config, s.open, q), crowded |-> Crowded(config, s.open)] ELSE @[d]]]

(* Whoever sets the Connection header decides what the client is told, but *)
(* not if the server needs the thread. What's left in it when a filter     *)
(* aborts isn't specified.                                                 *)
Response(config, s, c) ==
  LET t == s.taken[c]
      o == Outcome(config, t.q)
      hdr == IF config.hname = "Connection" /\ t.crowded THEN "close" ELSE o.seen.hdr
  IN [o EXCEPT !.seen.hdr = hdr]
       @@ [close |-> IF config.hname = "Connection" THEN hdr = "close" ELSE t.close,
           sure |-> config.hname # "Connection" \/ t.crowded \/ ~o.seen.aborted]

(* a connection where something panics is over *)
Finish(config, s, c) ==
  LET t == [s EXCEPT !.taken = [d \in DOMAIN @ \ {c} |-> @[d]]]
  IN IF Outcome(config, s.taken[c].q).seen.crashed THEN Closed(t, c)
     ELSE IF s.taken[c].close THEN [t EXCEPT !.over = @ \cup {c}] ELSE t

(* steps are [a, c] and, when taken, q *)
Do(config, s, step) ==
  CASE step.a = "open" -> Opened(s, step.c)
    [] step.a = "close" -> Closed(s, step.c)
    [] step.a = "take" -> Taken(config, s, step.c, step.q)
    [] step.a = "touch" -> s
    [] step.a = "finish" -> Finish(config, s, step.c)
=============================================================================
