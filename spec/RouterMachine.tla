--------------------------- MODULE RouterMachine ---------------------------
(***************************************************************************)
(* The search as the router performs it: a stack of (node, branch,         *)
(* position), a route state that is overwritten while searching, and two   *)
(* modes that differ in when the matches are offered the request. The      *)
(* invariants state that the outcome is what Routing says it is.           *)
(***************************************************************************)
EXTENDS Routing, TLC, Json

CONSTANTS
  Groups(_),     \* what the instances are chosen from, first one of these
  Members(_),    \* and then of these [kind, table, path, method, status], with and without hyperlinks
  Emit        \* print complete behaviours

VARIABLES
  inst, linking,         \* the instance that is explored
  stack,                 \* of [node, branch, ix, vix]
  vars,                  \* variable index of each segment, 0 for none
  ix, vix,               \* route position
  matches,               \* collected matches, when linking
  offers, winner, status, pc

state == <<inst, linking, stack, vars, ix, vix, matches, offers, winner, status, pc>>

Method == inst.method
Status0 == inst.status
Kind == inst.kind
table == inst.table
segs == inst.segs
Nodes == inst.nodes

Branches(n, i, v) == << [node |-> n, branch |-> "w", ix |-> i, vix |-> v],
                        [node |-> n, branch |-> "v", ix |-> i, vix |-> v],
                        [node |-> n, branch |-> "s", ix |-> i, vix |-> v] >>

Init ==
  /\ inst \in Groups(0) /\ linking \in BOOLEAN
  /\ vars = <<>> /\ ix = 1 /\ vix = 1 /\ stack = <<>> /\ matches = <<>> /\ offers = <<>>
  /\ winner = 0 /\ status = 0 /\ pc = "choose"

Choose ==
  /\ pc = "choose"
  /\ \E i \in Members(inst) :
       LET s == Segments(i.path)
       IN /\ inst' = [kind |-> i.kind, table |-> i.table, path |-> i.path, method |-> i.method,
                      status |-> i.status, segs |-> s, nodes |-> NodesOf(i.table)]
          /\ vars' = [j \in 1..Len(s) |-> 0]
          /\ status' = i.status
  /\ stack' = Branches(<<>>, 1, 1)
  /\ pc' = "search"
  /\ UNCHANGED <<linking, ix, vix, matches, offers, winner>>

Top == stack[Len(stack)]
Rest == SubSeq(stack, 1, Len(stack) - 1)
(* Offer the request to the item of node, with the bindings of asg. *)
Offer(node, asg) ==
  LET r == ItemAt(table, node, Method, Kind, Status0, segs, asg) IN
  /\ offers' = offers \o r.offers
  /\ winner' = r.winner
  /\ status' = r.status

AtEnd == Top.ix > Len(segs)

(* Only the part of the route state up to the position is meaningful. *)
Asg(i) == SubSeq(vars, 1, i - 1)

PopEnd ==
  /\ pc = "search" /\ stack # <<>> /\ AtEnd
  /\ ix' = Top.ix /\ vix' = Top.vix
  /\ stack' = Rest
  /\ IF Top.branch # "s"
     THEN UNCHANGED <<matches, offers, winner, status, pc>>
     ELSE IF linking
     THEN /\ matches' = Append(matches, [node |-> Top.node, vars |-> vars, ix |-> Top.ix])
          /\ UNCHANGED <<offers, winner, status, pc>>
     ELSE /\ Offer(Top.node, Asg(Top.ix))
          /\ matches' = Append(matches, [node |-> Top.node, vars |-> vars, ix |-> Top.ix])
          /\ pc' = IF winner' # 0 THEN "done" ELSE "search"
  /\ UNCHANGED <<inst, linking, vars>>

PopStatic ==
  /\ pc = "search" /\ stack # <<>> /\ ~AtEnd /\ Top.branch = "s"
  /\ LET n == Append(Top.node, SKey(segs[Top.ix])) IN
     IF n \in Nodes
     THEN /\ vars' = [vars EXCEPT ![Top.ix] = 0]
          /\ ix' = Top.ix + 1 /\ vix' = Top.vix
          /\ stack' = Rest \o Branches(n, Top.ix + 1, Top.vix)
     ELSE ix' = Top.ix /\ vix' = Top.vix /\ stack' = Rest /\ UNCHANGED vars
  /\ UNCHANGED <<inst, linking, matches, offers, winner, status, pc>>

PopVariable ==
  /\ pc = "search" /\ stack # <<>> /\ ~AtEnd /\ Top.branch = "v"
  /\ LET n == Append(Top.node, VKey) IN
     IF n \in Nodes
     THEN /\ vars' = [vars EXCEPT ![Top.ix] = Top.vix]
          /\ ix' = Top.ix + 1 /\ vix' = Top.vix + 1
          /\ stack' = Rest \o Branches(n, Top.ix + 1, Top.vix + 1)
     ELSE ix' = Top.ix /\ vix' = Top.vix /\ stack' = Rest /\ UNCHANGED vars
  /\ UNCHANGED <<inst, linking, matches, offers, winner, status, pc>>

PopWildcard ==
  /\ pc = "search" /\ stack # <<>> /\ ~AtEnd /\ Top.branch = "w"
  /\ LET n == Append(Top.node, WKey) IN
     IF n \in Nodes
     THEN /\ vars' = [vars EXCEPT ![Top.ix] = Top.vix]
          /\ ix' = Top.ix + 1 /\ vix' = Top.vix + 1
          /\ stack' = Append(Rest, [node |-> Top.node, branch |-> "w", ix |-> Top.ix + 1, vix |-> Top.vix])
                      \o Branches(n, Top.ix + 1, Top.vix + 1)
     ELSE ix' = Top.ix /\ vix' = Top.vix /\ stack' = Rest /\ UNCHANGED vars
  /\ UNCHANGED <<inst, linking, matches, offers, winner, status, pc>>

SearchDone ==
  /\ pc = "search" /\ stack = <<>>
  /\ IF matches = <<>> THEN status' = 404 ELSE UNCHANGED status
  /\ pc' = IF linking /\ matches # <<>> THEN "offer" ELSE "return"
  /\ UNCHANGED <<inst, linking, stack, vars, ix, vix, matches, offers, winner>>

OfferNext ==
  /\ pc = "offer" /\ matches # <<>>
  /\ vars' = Head(matches).vars /\ ix' = Head(matches).ix
  /\ Offer(Head(matches).node, SubSeq(Head(matches).vars, 1, Head(matches).ix - 1))
  /\ matches' = Tail(matches)
  /\ pc' = IF winner' # 0 THEN "done" ELSE IF Tail(matches) = <<>> THEN "return" ELSE "offer"
  /\ UNCHANGED <<inst, linking, stack, vix>>

(* The request is handed back with the position it came with. *)
Return ==
  /\ pc = "return"
  /\ ix' = 1 /\ vix' = 1
  /\ pc' = "done"
  /\ UNCHANGED <<inst, linking, stack, vars, matches, offers, winner, status>>

Behaviour == [kind |-> Kind, linking |-> linking, table |-> table, path |-> inst.path,
              method |-> Method, status0 |-> Status0,
              offers |-> offers, winner |-> winner, status |-> status,
              links |-> IF linking THEN Links(table, Nodes, segs, Method, Kind) ELSE {},
              targets |-> IF linking THEN Targets(table, Nodes, segs, Method, Kind) ELSE {}]

Report ==
  /\ pc = "done" /\ Emit
  /\ PrintT(ToJson(Behaviour))
  /\ pc' = "reported"
  /\ UNCHANGED <<inst, linking, stack, vars, ix, vix, matches, offers, winner, status>>

Next == Choose \/ Report \/ PopEnd \/ PopStatic \/ PopVariable \/ PopWildcard \/ SearchDone \/ OfferNext \/ Return
Spec == Init /\ [][Next]_state /\ WF_state(Next)

(***************************************************************************)
Expected == Dispatch(table, Nodes, segs, Method, Kind, Status0)

Correct == pc = "done" =>
  /\ offers = Expected.offers
  /\ winner = Expected.winner
  /\ status = Expected.status

OfferedInOrder == offers = <<>> \/ IsPrefix(offers, Expected.offers)
RestoredPosition == (pc = "done" /\ winner = 0) => ix = 1 /\ vix = 1
(* Linking only changes when handlers are offered the request, see Correct: the
   expectation does not depend on it. *)
OneAnswer == pc # "choose" => \A i \in 1..Len(offers) :
  i < Len(offers) => ~(\E r \in DOMAIN table : table[r].id = offers[i].id /\ table[r].accept)
Terminates == <>(pc \in {"done", "reported"})
=============================================================================
