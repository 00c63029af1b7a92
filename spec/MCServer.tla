------------------------------ MODULE MCServer ------------------------------
(***************************************************************************)
(* Histories of connections and requests: connections are opened and       *)
(* closed, requests are taken up and worked on concurrently, one touch of  *)
(* the filter storage at a time, and finished, or end in a panic. The      *)
(* server is seen as doing what the implementation does, with a counter,   *)
(* and the decisions are compared to the ones by Server.                   *)
(***************************************************************************)
EXTENDS Server, Json

CONSTANT Instances(_), Depth(_)

VARIABLES inst, server, count, hist, requests, touched

Id == [method |-> "", path |-> "", hdr |-> "", query |-> "", act |-> "next", st |-> 0]
Scripts ==
  {Id, [Id EXCEPT !.method = "POST"], [Id EXCEPT !.path = "/b/c"], [Id EXCEPT !.path = "*"], [Id EXCEPT !.hdr = "f"],
   [Id EXCEPT !.hdr = "-", !.query = "g"], [Id EXCEPT !.act = "panic"]}
  \cup {[Id EXCEPT !.act = "abort", !.st = st, !.hdr = "f"] : st \in {200, 404, 503}}

NextF == NextAct(FALSE, <<>>)
Plain == [begin |-> [st |-> 0, hdr |-> "", act |-> NextF], writes |-> <<[t |-> "id", p |-> <<>>, s |-> <<>>]>>, end |-> NextF]
Adding == [Plain EXCEPT !.begin.act = NextAct(TRUE, <<60>>), !.end = NextAct(TRUE, <<62>>)]
Editing(h) == [Plain EXCEPT !.begin.hdr = h]
Setting(st) == [Plain EXCEPT !.begin.st = st]
Aborting == [Plain EXCEPT !.begin.act = AbortAct]
Crashing == [Plain EXCEPT !.begin.act = PanicAct]

With(op, n, d, h) == [op |-> op, n |-> n, d |-> d, h |-> h]
Head1(h) == With("header", 0, <<>>, h)
Send1 == <<With("send", 0, <<120, 121>>, "")>>
Chunks == <<Op("chunked", 0), With("send", 0, <<120>>, ""), With("write", 0, <<121>>, ""), Op("end", 0)>>
Kinds ==
  << Send1, Chunks, Panics,
     <<Op("raw", 1), With("write", 0, <<120>>, ""), Op("end", 0)>>,
     Nothing,
     <<Op("chunked", 0), With("send", 0, <<120>>, ""), Op("panic", 0)>>,
     <<Op("status", 204), Op("drop", 0)>>,
     <<Op("status", 404), With("send", 0, <<120>>, "")>> >>

Get(path) == [method |-> "GET", path |-> path, hdr |-> "", query |-> "", version |-> "1.1", bad |-> FALSE, close |-> FALSE, prog |-> Send1]
Asked ==
  {[Get(p) EXCEPT !.method = m] : m \in {"GET", "POST", "PUT", "OPTIONS"}, p \in {"/a", "/b/c", "/c", "*"}}
  \cup {[Get("/a") EXCEPT !.hdr = "h", !.query = "q"], [Get("/a") EXCEPT !.bad = TRUE, !.method = "CONNECT"],
        [Get("/a") EXCEPT !.method = "TRACE"], [Get("/a") EXCEPT !.method = "PATCH"], [Get("/") EXCEPT !.method = "DELETE"],
        [Get("/a") EXCEPT !.method = "HEAD", !.prog = Nothing], [Get("/") EXCEPT !.method = "HEAD", !.prog = Nothing],
        [Get("/a") EXCEPT !.close = TRUE], [Get("/a") EXCEPT !.version = "1.0"], [Get("/c") EXCEPT !.version = "1.0", !.close = TRUE]}

Simple == [family |-> "pipeline", threads |-> 2, free |-> -1, hname |-> "x-h", cf |-> <<>>, rf |-> <<>>, asked |-> <<>>]

(* one request with all kinds of filters *)
Pipelines(n) ==
  {[Simple EXCEPT !.cf = cf, !.asked = <<q>>] : cf \in UNION {[1..k -> Scripts] : k \in 0..n}, q \in Asked}
(* through response filters *)
Responses ==
  {[Simple EXCEPT !.cf = cf, !.rf = rf, !.asked = <<q>>] :
     cf \in {<<>>, <<[Id EXCEPT !.act = "abort", !.st = 404]>>, <<[Id EXCEPT !.act = "abort", !.st = 200], Id>>, <<Id, [Id EXCEPT !.act = "panic"]>>},
     rf \in {<<Adding>>, <<Setting(201), Adding>>, <<Adding, Setting(503)>>, <<Aborting>>, <<Crashing>>},
     q \in {r \in Asked : r.method # "HEAD"}}
(* with changes of the default headers *)
Headers ==
  {[Simple EXCEPT !.hname = hname, !.cf = cf, !.rf = rf, !.asked = <<[q EXCEPT !.prog = prog]>>] :
     hname \in DefaultHeaders, cf \in {<<>>, <<[Id EXCEPT !.act = "abort", !.st = 503]>>},
     rf \in {<<>>, <<Editing("f")>>, <<Editing("f"), Editing("gg")>>, <<Adding>>, <<Aborting>>, <<Editing("f"), Setting(404)>>},
     q \in {Get("/a"), Get("/c"), Get("*"), [Get("/a") EXCEPT !.bad = TRUE, !.method = "CONNECT"], [Get("/a") EXCEPT !.method = "PUT"]},
     prog \in {Kinds[k] : k \in DOMAIN Kinds \ {3, 6}}
        \cup {<<Head1("h")>> \o Kinds[k] : k \in DOMAIN Kinds \ {3, 6}}
        \cup {<<Head1("h"), Head1("i")>> \o Send1, Chunks}}
Removed ==
  {[Simple EXCEPT !.hname = hname, !.rf = rf, !.asked = <<[Get("/a") EXCEPT !.prog = <<Head1("-")>> \o Kinds[k]]>>] :
     hname \in DefaultHeaders \ {"Date"}, rf \in {<<>>, <<Editing("f")>>, <<Editing("-")>>, <<Editing("f"), Editing("-")>>}, k \in DOMAIN Kinds \ {3, 6}}

Rotated(k) == [i \in 1..Len(Kinds) |-> [Get(IF (i + k) % 5 = 0 THEN "/c" ELSE "/a") EXCEPT !.prog = Kinds[((i + k) % Len(Kinds)) + 1], !.close = (i + k) % 7 = 0]]
KeptAlive(ts, fs, rots) ==
  {[Simple EXCEPT !.family = "connections", !.threads = t, !.free = f, !.asked = Rotated(k)] : t \in ts, f \in fs, k \in rots}
Filtered(ts, fs, rots) ==
  {[x EXCEPT !.rf = rf] : x \in KeptAlive(ts, fs, rots), rf \in {<<Adding>>, <<Aborting>>}}

Storing(n) ==
  {[Simple EXCEPT !.family = "storage", !.cf = <<Id>>, !.rf = rf,
       !.asked = [i \in 1..4 |-> [Get("/a") EXCEPT !.prog = Kinds[IF (i + k) % 4 = 0 THEN 2 ELSE IF (i + k) % 4 = 1 THEN 3 ELSE 1]]]] :
     rf \in {<<Plain>>}, k \in 1..n}

(* what panics once doesn't have to do it again *)
Boom == [Id EXCEPT !.act = "boom"]
Recovering ==
  {[Simple EXCEPT !.family = "recovery", !.cf = cf, !.rf = rf, !.free = free,
       !.asked = <<[Get("/a") EXCEPT !.hdr = "boom"], Get("/a"), [Get("/b/c") EXCEPT !.hdr = "boom", !.prog = Chunks], [Get("/c") EXCEPT !.prog = Chunks]>>] :
     cf \in {<<Boom>>, <<Boom, Id>>, <<Id, Boom>>, <<Boom, Boom>>, <<[Id EXCEPT !.hdr = "boom"], Boom>>, <<[Id EXCEPT !.hdr = "-"], Boom>>},
     rf \in {<<>>, <<Adding>>}, free \in {-1, 1}}

(* for real connections: never more of them than there are threads *)
Real(ts, fs, rots) == {[x EXCEPT !.family = "real"] : x \in KeptAlive(ts, fs, rots)}
NetInstances(d) == Real(1..3, -1..2, {0, 3, 5})
NetDepth(family) == 7
DeepNetInstances(d) == Real(1..3, -1..3, 0..7)
DeepNetDepth(family) == 8

(* after many connections that were opened and closed at the same time *)
Stressed(ts, fs, rots) == {[x EXCEPT !.family = "stress"] : x \in KeptAlive(ts, fs, rots)}
StressInstances(d) == Stressed({2}, {0, 1}, {0})
StressDepth(family) == 6

QuickInstances(d) == Pipelines(2) \cup Responses \cup Headers \cup Removed \cup KeptAlive(1..3, -1..2, {0, 3}) \cup Storing(2) \cup Recovering
QuickDepth(family) == CASE family = "pipeline" -> 3 [] family = "connections" -> 7 [] family = "storage" -> 8 [] family = "recovery" -> 8
ThoroughInstances(d) ==
  Pipelines(3) \cup Responses \cup Headers \cup Removed \cup KeptAlive(1..3, -1..2, 0..7) \cup Filtered(1..3, 0..2, {0, 3}) \cup Storing(4) \cup Recovering
ThoroughDepth(family) == CASE family = "pipeline" -> 3 [] family = "connections" -> 9 [] family = "storage" -> 10 [] family = "recovery" -> 9

Conns == 1..3
MaxConns == CASE inst.family = "real" -> inst.threads [] inst.family = "pipeline" -> 1 [] inst.family \in {"connections", "stress"} -> 3 [] inst.family \in {"storage", "recovery"} -> 2
Idle == (server.open \ DOMAIN server.taken) \ server.over

Init == inst \in Instances(0) /\ server = Server0 /\ count = 0 /\ hist = <<>> /\ requests = 0 /\ touched = [c \in Conns |-> 0]

Stepped(step) == /\ server' = Do(inst, server, step) /\ UNCHANGED inst

Open(c) ==
  /\ c \notin server.open /\ c <= MaxConns /\ \A d \in Conns : d < c => d \in server.open
  /\ LET s == [a |-> "open", c |-> c] IN Stepped(s) /\ hist' = Append(hist, s)
  /\ count' = count + 1 /\ UNCHANGED <<requests, touched>>

Close(c) ==
  /\ c \in server.open \ DOMAIN server.taken
  /\ inst.family # "pipeline"
  /\ LET s == [a |-> "close", c |-> c] IN Stepped(s) /\ hist' = Append(hist, s)
  /\ count' = count - 1 /\ UNCHANGED <<requests, touched>>

Take(c) ==
  /\ c \in Idle /\ requests < Len(inst.asked)
  /\ LET q == inst.asked[requests + 1]
         s == [a |-> "take", c |-> c, q |-> q]
     IN /\ Stepped(s) /\ hist' = Append(hist, s)
        (* the counter gives the same decision *)
        /\ Assert(Crowded(inst, server.open) = (KeepsAlive(inst) /\ count + inst.free > inst.threads), "the counter is wrong")
  /\ requests' = requests + 1 /\ touched' = [touched EXCEPT ![c] = 0] /\ UNCHANGED count

Touch(c) ==
  /\ inst.family = "storage" /\ c \in DOMAIN server.taken /\ touched[c] < 3
  /\ LET s == [a |-> "touch", c |-> c] IN Stepped(s) /\ hist' = Append(hist, s)
  /\ touched' = [touched EXCEPT ![c] = @ + 1] /\ UNCHANGED <<count, requests>>

Finished1(c) ==
  /\ c \in DOMAIN server.taken
  /\ LET s == [a |-> "finish", c |-> c, seen |-> Response(inst, server, c)] IN Stepped(s) /\ hist' = Append(hist, s)
  /\ count' = IF Outcome(inst, server.taken[c].q).seen.crashed THEN count - 1 ELSE count
  /\ UNCHANGED <<requests, touched>>

(* whatever is in progress is finished in the end *)
RECURSIVE Drained(_, _)
Drained(s, h) ==
  IF DOMAIN s.taken = {} THEN h
  ELSE LET c == CHOOSE d \in DOMAIN s.taken : \A e \in DOMAIN s.taken : d <= e
           f == [a |-> "finish", c |-> c, seen |-> Response(inst, s, c)]
       IN Drained(Do(inst, s, f), Append(h, f))

Behaviour == [threads |-> inst.threads, free |-> inst.free, hname |-> inst.hname, cf |-> inst.cf, rf |-> inst.rf, steps |-> Drained(server, hist)]

(* with real connections, some things happen at once *)
Now(a, c) ==
  inst.family = "real" /\ hist # <<>> =>
    LET last == hist[Len(hist)]
    IN /\ server.over # {} => a = "close" /\ c \in server.over
       /\ last.a = "take" /\ ~Outcome(inst, last.q).handled => a = "finish" /\ c = last.c

Next ==
  /\ Len(hist) < Depth(inst.family)
  /\ \E c \in Conns : 
       \/ Now("open", c) /\ Open(c)
       \/ Now("close", c) /\ Close(c)
       \/ Now("take", c) /\ Take(c)
       \/ Touch(c)
       \/ Now("finish", c) /\ Finished1(c)

Complete == Len(hist) = Depth(inst.family)
Printed == Complete => PrintT(ToJson(Behaviour))

CountIsOpen == count = Cardinality(server.open)
TakenAreOpen == DOMAIN server.taken \subseteq server.open

(* the events of a course are those of the filters up to one that doesn't
   continue, in order, and then the handler, at most once *)
EventsInOrder ==
  Len(hist) > 0 /\ hist[Len(hist)].a = "finish" =>
    LET x == hist[Len(hist)].seen
        n == Len(x.events)
    IN /\ \A i \in 1..n : x.events[i].who = i \/ (i = n /\ x.events[i].who = 0 /\ x.handled)
       /\ x.handled => n = Len(inst.cf) + 1 /\ \A i \in DOMAIN inst.cf : inst.cf[i].act \in {"next", "boom"}
AbortIsAnswer ==
  Len(hist) > 0 /\ hist[Len(hist)].a = "finish" =>
    LET x == hist[Len(hist)].seen
        k == Len(x.events)
    IN k > 0 /\ k <= Len(inst.cf) /\ ~x.handled /\ inst.cf[k].act = "abort" /\ inst.rf = <<>>
         => x.seen.status = inst.cf[k].st /\ x.seen.body = <<>>

Spec == Init /\ [][Next]_<<inst, server, count, hist, requests, touched>>
=============================================================================
