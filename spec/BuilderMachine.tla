--------------------------- MODULE BuilderMachine ---------------------------
(* Histories of building steps, and what the resulting router does. *)
EXTENDS Builder, TLC, Json

CONSTANTS Pools(_),    \* the steps for each kind of router
          Probes(_),   \* [path, method, status] to ask the result
          Lookups(_),  \* patterns to look up
          MaxSteps

VARIABLES kind, hist, table, fresh

vars == <<kind, hist, table, fresh>>

Init == /\ kind \in {"opt", "meth", "stat", "or", "sor", "ttop", "mtop", "stop", "def"}
        /\ hist = <<>> /\ table = EmptyTable(kind) /\ fresh = TRUE

Step == /\ ~fresh /\ Len(hist) < MaxSteps
        /\ \E o \in Pools(kind) :
             /\ hist' = Append(hist, o)
             /\ table' = Apply(table, kind, <<>>, <<>>, o)
        /\ fresh' = TRUE /\ UNCHANGED kind

(* Every other history is also built with a tag. *)
Tags == IF kind = "def" THEN {0} ELSE IF (Len(table.regs) + Cardinality(table.nodes)) % 2 = 0 THEN {0} ELSE {0, 5}

Observe == /\ fresh
           /\ \A g \in Tags : LET t == Tagged(table, g) IN
              PrintT(ToJson([kind |-> kind, ops |-> hist, tag |-> g,
                probes |-> {[path |-> p.path, method |-> p.method, status0 |-> p.status] @@ Ask(t, kind, p.path, p.method, p.status)
                            : p \in Probes(kind)},
                lookups |-> {[p |-> x, found |-> Found(t, x)] : x \in Lookups(kind)}]))
           /\ fresh' = FALSE /\ UNCHANGED <<kind, hist, table>>

Next == Step \/ Observe
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* A table never has two registrations for the same place.                 *)
OnePerPlace == \A i, j \in DOMAIN table.regs :
  (i # j /\ table.regs[i].node = table.regs[j].node) =>
     /\ kind \in {"meth", "stat", "or", "sor"}
     /\ (kind \in {"stat", "or", "sor"} /\ table.regs[i].method = table.regs[j].method) => table.regs[i].on # table.regs[j].on
     /\ kind = "meth" => table.regs[i].method # table.regs[j].method

(* Every place is found, and its parents. *)
Closed == \A n \in table.nodes : NodePrefixes(n) \subseteq table.nodes

(* A handler has as many names as there are variables in its place. *)
Named == \A i \in DOMAIN table.regs :
  Len(table.regs[i].names) = Cardinality({j \in DOMAIN table.regs[i].node : table.regs[i].node[j].k # "s"})

(* Every registration is matched by a path that is an instance of it. *)
InstanceOf(node) == [i \in DOMAIN node |-> IF node[i].k = "s" THEN node[i].l ELSE <<113>>]
Reachable == \A i \in DOMAIN table.regs :
  LET ms == Matches(table.nodes, InstanceOf(table.regs[i].node))
  IN \E j \in DOMAIN ms : ms[j].node = table.regs[i].node

(* Merging a router is the same as doing its steps in place. *)
(* (if it has no tag and nothing of its own in its empty places) *)
NoGets(ops) == \A i \in DOMAIN ops : ops[i].op # "get"
RegSet(t) == {t.regs[i] : i \in DOMAIN t.regs}
MergeIsReplay ==
  \A o \in Pools(kind) : (o.op = "path" /\ Len(o.sub) = 1 /\ kind # "def" /\ o.sub[1].op = "merge" /\ o.sub[1].tag = 0 /\ NoGets(o.sub[1].other)) =>
    LET merged == Apply(table, kind, <<>>, <<>>, o)
        inplace == Apply(table, kind, <<>>, <<>>, [o EXCEPT !.sub = o.sub[1].other])
    IN merged.nodes = inplace.nodes /\ RegSet(merged) = RegSet(inplace)
=============================================================================
