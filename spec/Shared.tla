------------------------------ MODULE Shared ------------------------------
(***************************************************************************)
(* One router that is used by several requests, one after another and at   *)
(* the same time. A request is in flight from when it's taken until a      *)
(* handler has accepted it or it has been handed back, and stops at each   *)
(* handler that it's offered to until that one makes up its mind. Nothing  *)
(* is kept between requests, and no request waits for another one.         *)
(***************************************************************************)
EXTENDS Routing, TLC, Json

CONSTANTS
  Instances(_),   \* [kind, table, linking]
  Requests(_),    \* the requests that are made to an instance: [path, method, status]
  Conns,          \* where they come from
  MaxTakes,
  Emit            \* print complete histories

VARIABLES inst, flight, past, steps, pc
vars == <<inst, flight, past, steps, pc>>

Idle == [busy |-> FALSE]
Nodes == NodesOf(inst.table)

(* Go on to the next one to be offered the request, or to the end. *)
RECURSIVE Advance(_)
Advance(r) ==
  IF r.queue # <<>> \/ r.done THEN r
  ELSE IF r.winner # 0 \/ r.left = <<>> THEN [r EXCEPT !.done = TRUE]
  ELSE LET m == Head(r.left)
           i == ItemAt(inst.table, m.node, r.q.method, inst.kind, r.q.status, r.segs, m.asg)
       IN Advance([r EXCEPT !.left = Tail(@), !.queue = i.offers, !.winner = i.winner, !.status = i.status])

Begin(n, q) ==
  LET segs == Segments(q.path)
      ms == Matches(Nodes, segs)
  IN Advance([busy |-> TRUE, n |-> n, q |-> q, segs |-> segs, left |-> ms, queue |-> <<>>, made |-> <<>>,
              winner |-> 0, status |-> IF ms = <<>> THEN 404 ELSE q.status, done |-> FALSE])

(* The offer that's waited for is decided. *)
Decide(r) == Advance([r EXCEPT !.made = Append(@, Head(r.queue)), !.queue = Tail(@)])

Result(r) ==
  [n |-> r.n, path |-> r.q.path, method |-> r.q.method, status0 |-> r.q.status,
   offers |-> r.made, winner |-> r.winner, status |-> r.status,
   links |-> IF inst.linking THEN Links(inst.table, Nodes, r.segs, r.q.method, inst.kind) ELSE {},
   targets |-> IF inst.linking THEN Targets(inst.table, Nodes, r.segs, r.q.method, inst.kind) ELSE {}]

Taken == Cardinality({i \in DOMAIN steps : steps[i].a = "take"})

Settle(c, r, step) ==
  /\ flight' = [flight EXCEPT ![c] = IF r.done THEN Idle ELSE r]
  /\ past' = IF r.done THEN past \cup {Result(r)} ELSE past
  /\ steps' = Append(steps, [step EXCEPT !.done = r.done])

Init == inst = <<>> /\ flight = [c \in Conns |-> Idle] /\ past = {} /\ steps = <<>> /\ pc = "choose"

Choose ==
  /\ pc = "choose" /\ pc' = "go"
  /\ inst' \in Instances(0)
  /\ UNCHANGED <<flight, past, steps>>

Take(c, q) ==
  /\ pc = "go" /\ ~flight[c].busy /\ Taken < MaxTakes
  (* the others are all the same *)
  /\ \A d \in Conns : d < c => flight[d].busy
  /\ Settle(c, Begin(Taken + 1, q),
            [a |-> "take", c |-> c, n |-> Taken + 1, path |-> q.path, method |-> q.method, status0 |-> q.status, done |-> FALSE])
  /\ UNCHANGED <<inst, pc>>

Step(c) ==
  /\ pc = "go" /\ flight[c].busy
  /\ Settle(c, Decide(flight[c]), [a |-> "step", c |-> c, n |-> flight[c].n, path |-> <<>>, method |-> "", status0 |-> 0, done |-> FALSE])
  /\ UNCHANGED <<inst, pc>>

Report ==
  /\ pc = "go" /\ Taken = MaxTakes /\ \A c \in Conns : ~flight[c].busy
  /\ pc' = "reported"
  /\ (Emit => PrintT(ToJson([kind |-> inst.kind, linking |-> inst.linking, table |-> inst.table, steps |-> steps, results |-> past])))
  /\ UNCHANGED <<inst, flight, past, steps>>

Next == Choose \/ (\E c \in Conns : (\E q \in Requests(inst) : Take(c, q)) \/ Step(c)) \/ Report
Spec == Init /\ [][Next]_vars

(***************************************************************************)
Alone(q) == Dispatch(inst.table, Nodes, Segments(q.path), q.method, inst.kind, q.status)

(* In flight, a request has been offered as it would have been by itself, *)
AsAlone == \A c \in Conns : flight[c].busy =>
  LET r == flight[c] IN IsPrefix(Append(r.made, Head(r.queue)), Alone(r.q).offers)
(* and so has it in the end. *)
EndsAsAlone == \A r \in past :
  LET x == Alone([path |-> r.path, method |-> r.method, status |-> r.status0])
  IN r.offers = x.offers /\ r.winner = x.winner /\ r.status = x.status
(* Equal requests are answered equally. *)
Repeatable == \A r, s \in past :
  (r.path = s.path /\ r.method = s.method /\ r.status0 = s.status0) => [r EXCEPT !.n = 0] = [s EXCEPT !.n = 0]
(* Nothing is in the way of a request. *)
NeverWaits == \A c \in Conns : flight[c].busy => ENABLED Step(c)
(* The router is never changed. *)
Constant == [][pc # "choose" => UNCHANGED inst]_vars
=============================================================================
