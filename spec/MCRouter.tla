----------------------------- MODULE MCRouter -----------------------------
(* Bounded instances of RouterMachine. *)
EXTENDS RouterMachine, FiniteSetsExt

a == <<97>>
b == <<98>>

Keys == {SKey(a), VKey, WKey}
RECURSIVE NodePool(_)
NodePool(d) == IF d = 0 THEN {<<>>}
               ELSE LET p == NodePool(d - 1)
                    IN p \cup {Append(n, k) : n \in {x \in p : Len(x) = d - 1}, k \in Keys}

(* Registration i names its j:th variable in its own way. The second one leaves
   its first variable unnamed and the third one uses a single name. *)
VarName(i, j) == IF i = 2 /\ j = 1 THEN <<>> ELSE IF i = 3 THEN <<122>> ELSE <<109 + i, 48 + j>>
PatOf(node, i) ==
  LET F[n \in 0..Len(node)] ==
        IF n = 0 THEN [s |-> <<>>, j |-> 0]
        ELSE LET p == F[n-1]
                 k == node[n]
             IN IF k.k = "s" THEN [s |-> p.s \o <<Slash>> \o k.l, j |-> p.j]
                ELSE [s |-> p.s \o <<Slash, IF k.k = "v" THEN Colon ELSE Star>> \o VarName(i, p.j + 1), j |-> p.j + 1]
  IN F[Len(node)].s

RegAt(nodes, prof, i) == Reg(PatOf(nodes[i], i), prof[i].m, i, prof[i].a, prof[i].r)
(* the same, in a status table or as an alternative *)
OnTable(tbl, on) == [i \in DOMAIN tbl |-> [tbl[i] EXCEPT !.on = on[i]]]
TableOf(nodes, prof) == [i \in 1..Len(nodes) |-> RegAt(nodes, prof, i)]

(* all increasing selections of nodes, in an arbitrary but fixed order *)
Pick(pool, k) == {SetToSeq(s) : s \in kSubset(k, pool)}
Pick2(pool) == {<<x, y>> : x \in pool, y \in pool}

Prof(m, acc, r) == [m |-> m, a |-> acc, r |-> r]
OptProfs(k) == [1..k -> {Prof("GET", TRUE, 0), Prof("GET", FALSE, 410)}]
MethRejProfs(k) == [1..k -> {Prof("GET", TRUE, 0), Prof("GET", FALSE, 0), Prof("GET", FALSE, 204), Prof("POST", TRUE, 0)}]
MethProfs(k) == [1..k -> {Prof("GET", TRUE, 0), Prof("GET", FALSE, 0), Prof("POST", TRUE, 0)}]

Joined(ss) == FoldLeft(LAMBDA acc, s : acc \o <<Slash>> \o s, <<>>, ss)
P(ss) == IF ss = <<>> THEN <<Slash>> ELSE Joined(ss)

Inst(kind, tbl, path, st) == [kind |-> kind, table |-> tbl, path |-> path, method |-> "GET", status |-> st]

QuickPaths == {P(<<>>), P(<<a>>), P(<<b>>), P(<<a, a>>), P(<<a, b>>), P(<<b, a>>), P(<<a, a, b>>), P(<<b, a, b, a>>), P(<<b, <<>>, a>>) \o <<Slash>>}
ThoroughPaths == QuickPaths \cup {P(<<a, a, a>>), P(<<a, b, a>>), P(<<a, b, b, a>>), P(<<a, a, a, a>>), P(<<b, b, a, a, b>>)}

(* g says what is chosen for the nodes n *)
Group(g, ns) == {[g |-> g, n |-> n] : n \in ns}
Few == {P(<<>>), P(<<a>>)}
Opts(n, profs, paths, sts) == {Inst("opt", TableOf(n, p), path, s) : p \in profs, path \in paths, s \in sts}
Meths(n, paths) == {Inst("meth", TableOf(n, p), path, 200) : p \in MethProfs(Len(n)), path \in paths}
Ors(n, ons, paths) == {Inst("or", OnTable(TableOf(n, p), on), path, 200) : p \in MethRejProfs(Len(n)), path \in paths, on \in ons}
Stats(n, profs, ons, paths) ==
  {Inst("stat", OnTable(TableOf(n, p), on), path, s) : p \in profs, path \in paths, on \in ons, s \in {200, 503}}
Single(k) == {[i \in 1..k |-> Prof("GET", i = x, IF i = 1 THEN 0 ELSE 409 + i)] : x \in 0..k}

MembersOf(q) ==
  LET n == q.n IN
  CASE q.g = "opt" -> Opts(n, OptProfs(Len(n)), QuickPaths, {200})
    [] q.g = "opt3" -> Opts(n, Single(3), {P(<<a>>), P(<<a, a>>), P(<<b, a>>), P(<<a, b, a>>)}, {503})
    [] q.g = "meth" -> Meths(n, QuickPaths)
    [] q.g = "or" -> Ors(n, {<<0, 1>>, <<1, 0>>}, Few)
    [] q.g = "stat" -> Stats(n, MethProfs(2), {<<200, 200>>, <<200, 503>>}, Few)
    [] q.g = "OPT" -> Opts(n, OptProfs(Len(n)), ThoroughPaths, {200, 503})
    [] q.g = "OPT4" -> Opts(n, Single(4), {P(<<a>>), P(<<a, a>>), P(<<b, a>>), P(<<a, b, a>>), P(<<b, a, a, b>>)}, {200})
    [] q.g = "METH" -> Meths(n, ThoroughPaths)
    [] q.g = "OR" -> Ors(n, [1..2 -> {0, 1}], QuickPaths)
    [] q.g = "OR3" -> Ors(n, [1..3 -> {0, 1}], Few \cup {P(<<b>>)})
    [] q.g = "STAT" -> Stats(n, MethRejProfs(2), [1..2 -> {200, 503}], QuickPaths)

(* parameterised, since TLC evaluates all constants *)
QuickGroups(dummy) ==
  Group("opt", {<<x>> : x \in NodePool(2)}) \cup Group("opt", Pick(NodePool(2), 2))
  \cup Group("opt3", Pick(NodePool(2), 3))
  \cup Group("meth", Pick2(NodePool(1) \cup {<<VKey, SKey(a)>>, <<WKey, SKey(a)>>, <<SKey(a), WKey>>}))
  \cup Group("or", Pick2(NodePool(1))) \cup Group("stat", Pick2(NodePool(1)))
ThoroughGroups(dummy) ==
  Group("OPT", UNION {Pick(NodePool(2), k) : k \in 1..3}) \cup Group("OPT", Pick(NodePool(3), 2))
  \cup Group("OPT4", Pick(NodePool(2), 4))
  \cup Group("METH", Pick2(NodePool(2)))
  \cup Group("OR", Pick2(NodePool(2))) \cup Group("OR3", [1..3 -> NodePool(1)])
  \cup Group("STAT", Pick2(NodePool(2)))
=============================================================================
