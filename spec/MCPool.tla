------------------------------- MODULE MCPool -------------------------------
(***************************************************************************)
(* Servers that are run, with more connections than there are threads.     *)
(***************************************************************************)
EXTENDS Config, TLC, Json

CONSTANTS Instances(_), Depth(_)

VARIABLES inst, pool, hist

Local == [v6 |-> FALSE, ip |-> <<127, 0, 0, 1>>]
Simple == [family |-> "pool", threads |-> 1, free |-> -1, tls |-> FALSE, host |-> Local, fixed |-> FALSE]
Pools(ts, fs) == {[Simple EXCEPT !.threads = t, !.free = f, !.tls = tls] : t \in ts, f \in fs, tls \in BOOLEAN}
Elsewhere ==
  {[Simple EXCEPT !.family = "host", !.host = h, !.fixed = fixed, !.tls = tls, !.free = 0] :
     h \in {Local, [Local EXCEPT !.ip = <<127, 1, 2, 3>>], [Local EXCEPT !.ip = <<0, 0, 0, 0>>],
            [v6 |-> TRUE, ip |-> <<0, 0, 0, 0, 0, 0, 0, 1>>], [v6 |-> TRUE, ip |-> <<0, 0, 0, 0, 0, 0, 0, 0>>]},
     fixed \in BOOLEAN, tls \in BOOLEAN}
(* a crowd that comes one by one and is answered in the same order *)
Crowds(ts) == {[Simple EXCEPT !.family = "crowd", !.threads = t, !.tls = tls, !.free = IF tls THEN 0 ELSE -1] : t \in ts, tls \in BOOLEAN}
Idling(ts) == {[Simple EXCEPT !.family = "idle", !.threads = t, !.free = 0, !.tls = tls] : t \in ts, tls \in BOOLEAN}

QuickInstances(d) == Pools(1..2, -1..1) \cup Elsewhere \cup Idling(1..2) \cup Crowds({9, 33, 100})
ThoroughInstances(d) == Pools(1..3, -1..2) \cup Elsewhere \cup Idling(1..3) \cup Crowds({9, 17, 33, 70, 130, 260})
QuickDepth(family) == CASE family = "pool" -> 6 [] family = "host" -> 3 [] family = "idle" -> 5 [] family = "crowd" -> 1000
ThoroughDepth(family) == CASE family = "pool" -> 7 [] family = "host" -> 4 [] family = "idle" -> 7 [] family = "crowd" -> 1000

Init == inst = <<>> /\ pool = Pool0 /\ hist = <<>>
Choose == inst = <<>> /\ inst' \in Instances(0) /\ UNCHANGED <<pool, hist>>

Known == pool.held \cup pool.over \cup {pool.queue[i].c : i \in DOMAIN pool.queue}
After(p) == [working |-> DOMAIN p.taken, over |-> p.over]
Step(s, p) == hist' = Append(hist, s @@ After(p)) /\ pool' = p /\ UNCHANGED inst

Arrive ==
  LET c == Cardinality(Known) + 1 IN
  /\ c <= inst.threads + 2
  /\ inst.family = "idle" => Cardinality(pool.held) < inst.threads /\ DOMAIN pool.taken = {}
  /\ inst.family = "crowd" => pool.over = {}
  /\ \E good \in (IF inst.tls /\ inst.family # "crowd" THEN BOOLEAN ELSE {TRUE}) : Step([a |-> "arrive", c |-> c, good |-> good], Arrived(inst, pool, c, good))
Again == inst.family # "crowd" /\ \E c \in Idle(pool) : inst.family # "idle" /\ Step([a |-> "again", c |-> c], AskedAgain(inst, pool, c))
Answer == \E c \in DOMAIN pool.taken :
  /\ inst.family = "crowd" => Cardinality(Known) = inst.threads + 2 /\ \A d \in DOMAIN pool.taken : d >= c
  /\ Step([a |-> "answer", c |-> c, close |-> pool.taken[c]], Answered(inst, pool, c))
Leave == \E c \in Idle(pool) : inst.family \notin {"idle", "crowd"} /\ Step([a |-> "leave", c |-> c], Ended(inst, pool, {c}))
(* after a while, the idle connections are closed by the server *)
Expire == inst.family = "idle" /\ DOMAIN pool.taken = {} /\ Idle(pool) # {} /\ Step([a |-> "expire", cs |-> Idle(pool)], Ended(inst, pool, Idle(pool)))

Next == Choose \/ (inst # <<>> /\ Len(hist) < Depth(inst.family) /\ (Arrive \/ Again \/ Answer \/ Leave \/ Expire))
Spec == Init /\ [][Next]_<<inst, pool, hist>>

Stuck == inst # <<>> /\ Len(hist) > 0 /\ (Len(hist) = Depth(inst.family) \/ ~ENABLED (inst # <<>> /\ (Arrive \/ Again \/ Answer \/ Leave \/ Expire)))
Printed == Stuck => PrintT(ToJson([inst |-> inst, steps |-> hist]))

(* no thread works on two connections, and none is idle while one waits *)
InThreads == inst # <<>> => /\ Cardinality(pool.held) <= inst.threads
                            /\ DOMAIN pool.taken \subseteq pool.held
                            /\ pool.queue # <<>> => Cardinality(pool.held) = inst.threads
NeverKept == inst # <<>> => (inst.free < 0 => Idle(pool) = {})
=============================================================================
