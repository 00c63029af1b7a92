------------------------------ MODULE Builder ------------------------------
(***************************************************************************)
(* What a history of building steps means: a plain route table             *)
(*   [nodes, regs]                                                         *)
(* where nodes are the places that exist and regs is a sequence of         *)
(* registrations with at most one per place and key. Steps are trees in    *)
(* the same way as chained builder calls:                                  *)
(*   [op |-> "path", p, sub]             path(p), then sub on the result   *)
(*   [op |-> "get", p, sub]              get_path(p), sub if it's there    *)
(*   [op |-> "on_path", p, id, sub]      on_path(p, handler)               *)
(*   [op |-> "on_route", p, id, sub]     on_route(p, handler)              *)
(*   [op |-> "handler", id, sub]         handler(handler)                  *)
(*   [op |-> "then", method, on, how, id]   then().on(..)                  *)
(*   [op |-> "then_merge", entries]      then().merge(method router)       *)
(*   [op |-> "merge", other, tag]        merge(router built by other)      *)
(* A router may be built with some context for its handlers, a tag here,   *)
(* which adds thousands to their numbers and replaces those in routers     *)
(* that are merged into it. 0 is no tag. The places in a tree of plain     *)
(* handlers ("def") have a default one until they get another, and one     *)
(* from a merged router counts as such.                                    *)
(* In a tree of trees ("ttop"), where the outer one has used the whole     *)
(* path, so the root of the inner one is all that's ever reached:          *)
(*   [op |-> "inner", sub]               then(), with sub on that tree     *)
(* In a table of whole trees, by method ("mtop") or by status ("stop"):    *)
(*   [op |-> "top", key, how, sub]       sub on the tree for that key      *)
(*   [op |-> "top_on", key, id]          on(key, handler), a new tree      *)
(*   [op |-> "top_merge", other, tag]    merge(table built by other)       *)
(* where the key is treated as a static segment before the path.           *)
(***************************************************************************)
EXTENDS Routing

Default(node, names) == [node |-> node, names |-> names, method |-> "", on |-> 200, id |-> 999, accept |-> TRUE, rej |-> 0]

EmptyTable(kind) == [nodes |-> {<<>>}, regs |-> IF kind = "def" THEN << Default(<<>>, <<>>) >> ELSE <<>>]

(* A place and those on the way, reached with some names *)
NamesUpTo(node, names, n) == SubSeq(names, 1, Cardinality({j \in 1..n : node[j].k # "s"}))
RECURSIVE Fill(_, _, _, _)
Fill(t, node, names, n) ==
  IF n > Len(node) THEN t
  ELSE LET p == SubSeq(node, 1, n)
       IN Fill(IF p \in t.nodes THEN t
               ELSE [nodes |-> t.nodes \cup {p}, regs |-> Append(t.regs, Default(p, NamesUpTo(node, names, n)))], node, names, n + 1)

Place(t, kind, node, names) ==
  IF kind = "def" THEN Fill(t, node, names, 1) ELSE [t EXCEPT !.nodes = @ \cup NodePrefixes(node)]

Tagged(t, tag) ==
  IF tag = 0 THEN t ELSE [t EXCEPT !.regs = [i \in DOMAIN @ |-> [@[i] EXCEPT !.id = (@ % 1000) + 1000 * tag]]]

(* Later registrations replace earlier ones in the same place. *)
Put(t, kind, node, names, method, on, id) ==
  LET same(r) == r.node = node /\ (kind \notin {"meth", "stat", "or", "sor"} \/ r.method = method) /\ (kind \notin {"stat", "or", "sor"} \/ r.on = on)
      reg == [node |-> node, names |-> names, method |-> method, on |-> on, id |-> id, accept |-> TRUE, rej |-> 0]
      placed == Place(t, kind, node, names)
  IN [nodes |-> placed.nodes,
      regs |-> Append(SelectSeq(placed.regs, LAMBDA r : ~same(r)), reg)]

RECURSIVE PutAll(_, _, _)
PutAll(t, kind, regs) ==
  IF regs = <<>> THEN t
  ELSE LET r == Head(regs) IN PutAll(Put(t, kind, r.node, r.names, r.method, r.on, r.id), kind, Tail(regs))

(* Another table, moved below a node that was reached with some names. *)
MergeAt(t, kind, node, names, other) ==
  PutAll([t EXCEPT !.nodes = @ \cup {node \o n : n \in other.nodes}], kind,
         [i \in DOMAIN other.regs |-> [other.regs[i] EXCEPT !.node = node \o @, !.names = names \o @]])

RECURSIVE Apply(_, _, _, _, _), ApplyAll(_, _, _, _, _)
Apply(t, kind, node, names, o) ==
  CASE o.op = "path" ->
         LET s == Segments(o.p) IN
         ApplyAll(Place(t, kind, node \o NodeOf(s), names \o NamesOf(s)), kind, node \o NodeOf(s), names \o NamesOf(s), o.sub)
    [] o.op = "get" ->
         LET s == Segments(o.p) IN
         IF node \o NodeOf(s) \in t.nodes THEN ApplyAll(t, kind, node \o NodeOf(s), names \o NamesOf(s), o.sub) ELSE t
    [] o.op \in {"on_path", "on_route"} ->
         LET s == Segments(o.p) IN
         ApplyAll(Put(t, kind, node \o NodeOf(s), names \o NamesOf(s), "", 200, o.id), kind, node \o NodeOf(s), names \o NamesOf(s), o.sub)
    [] o.op = "handler" -> ApplyAll(Put(t, kind, node, names, "", 200, o.id), kind, node, names, o.sub)
    [] o.op = "then" -> Put(t, kind, node, names, o.method, o.on, o.id)
    [] o.op = "then_merge" ->
         PutAll(t, kind, [i \in DOMAIN o.entries |-> [node |-> node, names |-> names, method |-> o.entries[i].method,
                                                       on |-> o.entries[i].on, id |-> o.entries[i].id]])
    [] o.op = "inner" ->
         LET here == SelectSeq(t.regs, LAMBDA r : r.node = node)
             tree == ApplyAll([nodes |-> {<<>>}, regs |-> [i \in DOMAIN here |-> [here[i] EXCEPT !.node = <<>>]]], "opt", <<>>, names, o.sub)
             root == SelectSeq(tree.regs, LAMBDA r : r.node = <<>>)
         IN PutAll(t, kind, [i \in DOMAIN root |-> [root[i] EXCEPT !.node = node]])
    [] o.op = "top" -> LET n == <<SKey(o.key)>> IN ApplyAll(Place(t, kind, n, <<>>), kind, n, <<>>, o.sub)
    [] o.op = "top_on" ->
         LET below(n) == n # <<>> /\ n[1] = SKey(o.key)
             cleared == [nodes |-> {n \in t.nodes : ~below(n)}, regs |-> SelectSeq(t.regs, LAMBDA r : ~below(r.node))]
         IN Put(cleared, kind, <<SKey(o.key)>>, <<>>, "", 200, o.id)
    [] o.op \in {"merge", "top_merge"} -> MergeAt(t, kind, node, names, Tagged(ApplyAll(EmptyTable(kind), kind, <<>>, <<>>, o.other), o.tag))

ApplyAll(t, kind, node, names, ops) ==
  IF ops = <<>> THEN t ELSE ApplyAll(Apply(t, kind, node, names, Head(ops)), kind, node, names, Tail(ops))

MethodKey(m) ==
  CASE m = "GET" -> <<1>> [] m = "POST" -> <<2>> [] m = "PATCH" -> <<3>> [] m = "PUT" -> <<4>>
    [] m = "DELETE" -> <<5>> [] m = "OPTIONS" -> <<6>> [] m = "HEAD" -> <<7>> [] m = "CONNECT" -> <<8>>
    [] m = "TRACE" -> <<9>> [] OTHER -> <<10>>
StatusKey(s) == <<s>>

(* What a request does in a table. *)
Ask(t, kind, path, method, status) ==
  LET key == IF kind = "mtop" THEN MethodKey(method) ELSE StatusKey(status)
      d == IF kind \in {"mtop", "stop"}
           THEN IF <<SKey(key)>> \in t.nodes
                THEN Dispatch(t.regs, t.nodes, <<key>> \o Segments(path), method, "opt", status)
                ELSE [offers |-> <<>>, winner |-> 0, status |-> IF kind = "mtop" THEN 405 ELSE status]
           ELSE Dispatch(t.regs, t.nodes, Segments(path), method, IF kind \in {"ttop", "def"} THEN "opt" ELSE kind, status)
  IN [offers |-> d.offers, winner |-> d.winner, status |-> d.status]

Found(t, pat) ==  NodeOf(Segments(pat)) \in t.nodes
=============================================================================
