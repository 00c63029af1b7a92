------------------------------ MODULE Routing ------------------------------
(***************************************************************************)
(* What routing means, stated without reference to how the search is done. *)
(* Paths, patterns, names and labels are sequences of bytes.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Slash == 47
Colon == 58
Star  == 42

(* All pieces of b between the occurrences of c (at least one piece). *)
SplitBy(b, c) ==
  LET F[i \in 0..Len(b)] ==
        IF i = 0 THEN << <<>> >>
        ELSE LET p == F[i-1] IN
             IF b[i] = c THEN Append(p, <<>>)
             ELSE [p EXCEPT ![Len(p)] = Append(@, b[i])]
  IN F[Len(b)]

(* One leading and one trailing slash carry no meaning, and the root has no
   segments. Empty segments in the middle are segments. *)
Segments(b) ==
  LET s1 == IF b # <<>> /\ b[1] = Slash THEN Tail(b) ELSE b
      s2 == IF s1 # <<>> /\ s1[Len(s1)] = Slash THEN SubSeq(s1, 1, Len(s1) - 1) ELSE s1
  IN IF s2 = <<>> THEN <<>> ELSE SplitBy(s2, Slash)

IsVar(seg)  == seg # <<>> /\ seg[1] = Colon
IsWild(seg) == seg # <<>> /\ seg[1] = Star

VKey == [k |-> "v", l |-> <<>>]
WKey == [k |-> "w", l |-> <<>>]
SKey(l) == [k |-> "s", l |-> l]

Key(seg) == IF IsVar(seg) THEN VKey ELSE IF IsWild(seg) THEN WKey ELSE SKey(seg)

(* The place of a pattern in the tree, and the names of its variables. *)
NodeOf(segs) == [i \in 1..Len(segs) |-> Key(segs[i])]
NamesOf(segs) ==
  LET vs == SelectSeq(segs, LAMBDA s : IsVar(s) \/ IsWild(s))
  IN [i \in 1..Len(vs) |-> Tail(vs[i])]

(***************************************************************************)
(* A route table is a sequence of registrations                            *)
(*   [node, names, method, on, id, accept, rej]                            *)
(* where a later one replaces an earlier one in the same place. `nodes` is *)
(* the prefix closed set of places that exist.                             *)
(***************************************************************************)
NodePrefixes(n) == {SubSeq(n, 1, i) : i \in 0..Len(n)}
NodesOf(table) == {<<>>} \cup UNION {NodePrefixes(table[i].node) : i \in DOMAIN table}

(* The registration of a handler with a pattern, as it's written in a program. *)
Reg(pat, method, id, accept, rej) ==
  [pat |-> pat, node |-> NodeOf(Segments(pat)), names |-> NamesOf(Segments(pat)),
   method |-> method, on |-> 200, id |-> id, accept |-> accept, rej |-> rej]

(* The registration that is in effect for a key, or 0. *)
Latest(c) == IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : j <= i

(* Every way to match the segments from i and on, best first. asg tells which
   variable each segment belongs to (0 for none). *)
RECURSIVE Derivs(_, _, _, _, _, _)
RECURSIVE WildDerivs(_, _, _, _, _, _, _)
Derivs(nodes, node, segs, i, nv, asg) ==
  IF i > Len(segs) THEN << [node |-> node, asg |-> asg] >>
  ELSE LET sn == Append(node, SKey(segs[i]))
           vn == Append(node, VKey)
           wn == Append(node, WKey)
       IN (IF sn \in nodes THEN Derivs(nodes, sn, segs, i + 1, nv, Append(asg, 0)) ELSE <<>>)
          \o (IF vn \in nodes THEN Derivs(nodes, vn, segs, i + 1, nv + 1, Append(asg, nv + 1)) ELSE <<>>)
          \o (IF wn \in nodes THEN WildDerivs(nodes, wn, segs, i, nv + 1, Append(asg, nv + 1), 1) ELSE <<>>)

(* The wildcard has taken the n segments from i. *)
WildDerivs(nodes, wn, segs, i, nv, asg, n) ==
  Derivs(nodes, wn, segs, i + n, nv, asg)
  \o (IF i + n <= Len(segs) THEN WildDerivs(nodes, wn, segs, i, nv, Append(asg, nv), n + 1) ELSE <<>>)

Matches(nodes, segs) == Derivs(nodes, <<>>, segs, 1, 0, <<>>)

(* The segments of variable v, joined with slashes. *)
ValueOf(asg, segs, v) ==
  LET ix == SelectSeq([i \in 1..Len(asg) |-> i], LAMBDA i : asg[i] = v)
      F[n \in 0..Len(ix)] ==
        IF n = 0 THEN <<>>
        ELSE IF n = 1 THEN segs[ix[1]]
        ELSE F[n-1] \o <<Slash>> \o segs[ix[n]]
  IN F[Len(ix)]

(* Named variables; of equal names the last one counts. *)
Bindings(names, asg, segs) ==
  LET used == {v \in 1..Len(names) : names[v] # <<>> /\ \E i \in 1..Len(asg) : asg[i] = v}
      last == {v \in used : \A w \in used : names[w] = names[v] => w <= v}
  IN {<<names[v], ValueOf(asg, segs, v)>> : v \in last}

(***************************************************************************)
(* Dispatch: offer the request to the matches in order until one accepts.  *)
(* kind "opt": each place has one optional handler, whatever the method.   *)
(* kind "meth": each place has a method table.                             *)
(* kind "stat": each place has a status table of method tables.            *)
(* kind "sor": each place has a status table of what is in "or", where on   *)
(* is twice the status, and one more for the other one.                    *)
(* kind "or": each place has a method table (on = 0), and another one that *)
(* is tried after it (on = 1).                                             *)
(* A rejecting handler may set a status (rej, 0 for none).                 *)
(***************************************************************************)
Places(table, node) == {i \in DOMAIN table : table[i].node = node}

(* One handler is offered the request, if there is one (reg # 0). *)
Try(table, reg, missing, segs, asg, acc) ==
  IF reg = 0 THEN [acc EXCEPT !.status = missing]
  ELSE LET h == table[reg] IN
       [offers |-> Append(acc.offers, [id |-> h.id, vars |-> Bindings(h.names, asg, segs), status |-> acc.status]),
        winner |-> IF h.accept THEN h.id ELSE 0,
        status |-> IF h.accept \/ h.rej = 0 THEN acc.status ELSE h.rej]

(* What comes out of a place, when the path is matched to it by asg. *)
ItemAt(table, node, method, kind, status, segs, asg) ==
  LET p == Places(table, node)
      m == {i \in p : table[i].method = method}
      on(x) == {i \in p : table[i].on = x}
      start == [offers |-> <<>>, winner |-> 0, status |-> status]
      either(x) == LET first == Try(table, Latest(on(x) \cap m), 405, segs, asg, start)
                   IN IF first.winner # 0 THEN first ELSE Try(table, Latest(on(x + 1) \cap m), 405, segs, asg, first)
  IN CASE kind = "opt"  -> Try(table, Latest(p), 404, segs, asg, start)
       [] kind = "meth" -> Try(table, Latest(m), 405, segs, asg, start)
       [] kind = "stat" -> IF on(status) = {} THEN start ELSE Try(table, Latest(on(status) \cap m), 405, segs, asg, start)
       [] kind = "or"   -> either(0)
       [] kind = "sor"  -> IF on(2 * status) = {} /\ on(2 * status + 1) = {} THEN start ELSE either(2 * status)

RECURSIVE Offers(_, _, _, _, _, _, _, _)
Offers(table, ms, segs, method, kind, status0, i, acc) ==
  IF i > Len(ms) \/ acc.winner # 0 THEN acc
  ELSE LET r == ItemAt(table, ms[i].node, method, kind, status0, segs, ms[i].asg)
       IN Offers(table, ms, segs, method, kind, status0, i + 1, [r EXCEPT !.offers = acc.offers \o @])

Dispatch(table, nodes, segs, method, kind, status0) ==
  LET ms == Matches(nodes, segs)
      start == [offers |-> <<>>, winner |-> 0, status |-> IF ms = <<>> THEN 404 ELSE status0]
  IN Offers(table, ms, segs, method, kind, status0, 1, start)

(***************************************************************************)
(* Hyperlinks: <<method, kind, label>> with method "" and kind "" for none. *)
(* A handler that isn't in any method table takes any method, so it's       *)
(* listed without a method.                                                *)
(***************************************************************************)
MethodsAt(table, node) == {table[i].method : i \in {j \in DOMAIN table : table[j].node = node}}

(* Some of the handlers are routers, with a continuation of their own. *)
Continues(id) == id % 2 = 0
Continuation == <<62, 62>>
ContinuationsAt(table, node, kind) ==
  LET p == Places(table, node)
  IN IF kind = "opt" THEN {<<"", "s", Continuation>> : i \in {j \in {Latest(p)} \ {0} : Continues(table[j].id)}}
     ELSE {<<table[i].method, "s", Continuation>> :
             i \in {j \in {Latest({k \in p : table[k].method = table[n].method /\ table[k].on = table[n].on}) : n \in p} : Continues(table[j].id)}}

LinksAt(table, nodes, node, method, kind) ==
  (IF kind # "opt" THEN {<<m, "", <<>>>> : m \in MethodsAt(table, node) \ {method}}
   ELSE {<<"", "", <<>>>> : i \in Places(table, node)})
  \cup ContinuationsAt(table, node, kind)
  \cup {<<"", n[Len(n)].k, n[Len(n)].l>> :
          n \in {x \in nodes : Len(x) = Len(node) + 1 /\ SubSeq(x, 1, Len(node)) = node}}

Links(table, nodes, segs, method, kind) ==
  LET ms == Matches(nodes, segs)
  IN UNION {LinksAt(table, nodes, ms[i].node, method, kind) : i \in DOMAIN ms}

(* The handler that a link without a path leads to: the one that is offered  *)
(* such a request first. In a status table, that depends on the status.      *)
TargetsAt(table, node, m, kind) ==
  LET p == {i \in Places(table, node) : table[i].method = m}
      on(x) == {i \in p : table[i].on = x}
  IN IF kind = "opt" THEN {table[Latest(Places(table, node))].id}
     ELSE IF kind = "or" /\ on(0) # {} THEN {table[Latest(on(0))].id}
     ELSE {table[Latest(on(x))].id : x \in {table[i].on : i \in p}}

Targets(table, nodes, segs, method, kind) ==
  LET ms == Matches(nodes, segs)
      listed(node) == IF kind = "opt" THEN {"" : i \in Places(table, node)} ELSE MethodsAt(table, node) \ {method}
      methods == UNION {listed(ms[i].node) : i \in DOMAIN ms}
      first(m) == CHOOSE i \in DOMAIN ms : m \in listed(ms[i].node) /\ \A j \in 1..(i - 1) : m \notin listed(ms[j].node)
  IN {<<m, TargetsAt(table, ms[first(m)].node, m, kind)>> : m \in methods}

(* The order of links: by method (none first, then alphabetically), then path. *)
RECURSIVE BytesLess(_, _)
BytesLess(a, b) ==
  IF b = <<>> THEN FALSE
  ELSE IF a = <<>> THEN TRUE
  ELSE IF a[1] # b[1] THEN a[1] < b[1]
  ELSE BytesLess(Tail(a), Tail(b))
=============================================================================
