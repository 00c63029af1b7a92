------------------------------ MODULE Compose ------------------------------
(***************************************************************************)
(* Routers composed of routers. A router is one of                         *)
(*   [t |-> "h", id, accept, rej]      a handler, that may reject          *)
(*   [t |-> "content", id]             ContentFactory, that always answers *)
(*   [t |-> "none"]                    Option, without a router            *)
(*   [t |-> "some", r]                 Option, with a router               *)
(*   [t |-> "or", a, b]                OrElse                              *)
(*   [t |-> "status", m]               StatusRouter, m: <<[on, r]>>        *)
(*   [t |-> "method", m]               MethodRouter, m: <<[method, r]>>    *)
(*   [t |-> "vars", names, r]          Variables                           *)
(*   [t |-> "tree", linking, e]        TreeRouter, e: <<[pat, r]>>         *)
(* A request in flight is [asg, vix, status, vars, links] where asg tells   *)
(* which variable each segment that is passed belongs to, and vix is the   *)
(* number of variables.                                                    *)
(***************************************************************************)
EXTENDS Routing

(* Links are [m, p], the method ("" for none) and the path, as <<kind, label>>,
   together with where those without a path lead: <<method, some of these>>. *)
NoLinks == [all |-> {}, targets |-> {}]
OuterLinks == [all |-> {[m |-> "TRACE", p |-> << <<"s", <<111, 117, 116, 101, 114>>>> >>]}, targets |-> {}]

Fresh(status, vars) == [asg |-> <<>>, vix |-> 0, status |-> status, vars |-> vars, links |-> OuterLinks]

Passed(env, log) == [ok |-> FALSE, env |-> env, log |-> log]
Answered(env, log) == [ok |-> TRUE, env |-> env, log |-> log]

LastEntry(m, P(_)) ==
  LET c == {i \in DOMAIN m : P(m[i])} IN IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : j <= i

TreeNodes(e) == NodesOf([i \in DOMAIN e |-> [node |-> NodeOf(Segments(e[i].pat))]])

(* The order in which the nodes of a tree are offered the request: as for any
   tree, but from where the request is. *)
TreeMatches(e, segs, env) ==
  LET nodes == TreeNodes(e)
  IN Derivs(nodes, <<>>, segs, Len(env.asg) + 1, env.vix, env.asg)

ItemIndex(e, node) == LastEntry(e, LAMBDA y : NodeOf(Segments(y.pat)) = node)
(* the entries that count *)
Current(m, K(_)) == {i \in DOMAIN m : \A j \in DOMAIN m : K(m[j]) = K(m[i]) => j <= i}

(* What a router lists, from a place that is reached with method m and path p *)
RECURSIVE Listed(_, _, _)
NodeListed(e, node, m, p) ==
  LET i == ItemIndex(e, node)
  IN (IF i = 0 THEN {} ELSE Listed(e[i].r, m, p))
     \cup {[m |-> m, p |-> Append(p, <<n[Len(n)].k, n[Len(n)].l>>)] :
             n \in {x \in TreeNodes(e) : Len(x) = Len(node) + 1 /\ SubSeq(x, 1, Len(node)) = node}}
Listed(r, m, p) ==
  CASE r.t = "h" -> {[m |-> m, p |-> p]} \cup IF Continues(r.id) THEN {[m |-> m, p |-> Append(p, <<"s", Continuation>>)]} ELSE {}
    [] r.t = "content" -> {[m |-> m, p |-> p]}
    [] r.t = "none" -> {}
    [] r.t = "some" -> Listed(r.r, m, p)
    [] r.t = "or" -> Listed(r.a, m, p) \cup Listed(r.b, m, p)
    [] r.t = "status" -> UNION {Listed(r.m[i].r, m, p) : i \in Current(r.m, LAMBDA y : y.on)}
    [] r.t = "method" -> UNION {Listed(r.m[i].r, r.m[i].method, p) : i \in Current(r.m, LAMBDA y : y.method)}
    [] r.t = "vars" -> Listed(r.r, m, p)
    [] r.t = "tree" -> NodeListed(r.e, <<>>, m, p)

(* The handlers that may be meant by a link with that method and no path *)
NoHandler == -1
RECURSIVE Meant(_, _, _)
Meant(r, m, want) ==
  CASE r.t = "h" -> IF m = want THEN {r.id} ELSE {}
    [] r.t = "content" -> IF m = want THEN {NoHandler} ELSE {}
    [] r.t = "none" -> {}
    [] r.t \in {"some", "vars"} -> Meant(r.r, m, want)
    [] r.t = "or" -> LET f == Meant(r.a, m, want) IN IF f # {} THEN f ELSE Meant(r.b, m, want)
    [] r.t = "status" -> UNION {Meant(r.m[i].r, m, want) : i \in Current(r.m, LAMBDA y : y.on)}
    [] r.t = "method" -> UNION {Meant(r.m[i].r, r.m[i].method, want) : i \in Current(r.m, LAMBDA y : y.method)}
    [] r.t = "tree" -> LET i == ItemIndex(r.e, <<>>) IN IF i = 0 THEN {} ELSE Meant(r.e[i].r, m, want)

LinksFrom(e, ms, method) ==
  LET all == UNION {NodeListed(e, ms[i].node, "", <<>>) : i \in DOMAIN ms} \ {[m |-> method, p |-> <<>>]}
      meant(i, want) == LET k == ItemIndex(e, ms[i].node) IN IF k = 0 THEN {} ELSE Meant(e[k].r, "", want)
      first(want) == CHOOSE i \in DOMAIN ms : meant(i, want) # {} /\ \A j \in 1..(i - 1) : meant(j, want) = {}
  IN [all |-> all, targets |-> {<<x.m, meant(first(x.m), x.m)>> : x \in {y \in all : y.p = <<>>}}]

VarCount(asg) == IF asg = <<>> THEN 0 ELSE LET s == {asg[i] : i \in DOMAIN asg} IN CHOOSE n \in s \cup {0} : \A x \in s : x <= n

RECURSIVE Run(_, _, _, _, _), TryAll(_, _, _, _, _, _, _)
Run(r, env, segs, method, log) ==
  CASE r.t = "h" ->
         LET l == Append(log, [id |-> r.id, vars |-> env.vars, status |-> env.status, links |-> env.links])
         IN IF r.accept THEN Answered(env, l)
            ELSE Passed([env EXCEPT !.status = IF r.rej = 0 THEN @ ELSE r.rej], l)
    [] r.t = "content" -> Answered(env, Append(log, [id |-> r.id, vars |-> env.vars, status |-> env.status, links |-> env.links]))
    [] r.t = "none" -> Passed([env EXCEPT !.status = 404], log)
    [] r.t = "some" -> Run(r.r, env, segs, method, log)
    [] r.t = "or" ->
         LET x == Run(r.a, env, segs, method, log)
         IN IF x.ok THEN x ELSE Run(r.b, x.env, segs, method, x.log)
    [] r.t = "status" ->
         LET i == LastEntry(r.m, LAMBDA y : y.on = env.status)
         IN IF i = 0 THEN Passed(env, log) ELSE Run(r.m[i].r, env, segs, method, log)
    [] r.t = "method" ->
         LET i == LastEntry(r.m, LAMBDA y : y.method = method)
         IN IF i = 0 THEN Passed([env EXCEPT !.status = 405], log) ELSE Run(r.m[i].r, env, segs, method, log)
    [] r.t = "vars" ->
         LET x == Run(r.r, [env EXCEPT !.vars = Bindings(r.names, env.asg, segs)], segs, method, log)
         IN IF x.ok THEN x ELSE Passed([x.env EXCEPT !.vars = env.vars], x.log)
    [] r.t = "tree" ->
         LET ms == TreeMatches(r.e, segs, env)
         IN IF ms = <<>> THEN Passed([env EXCEPT !.status = 404], log)
            ELSE LET inside == [env EXCEPT !.links = IF r.linking THEN LinksFrom(r.e, ms, method) ELSE NoLinks]
                     x == TryAll(r.e, ms, inside, env.status, segs, method, log)
                 IN IF x.ok THEN x ELSE Passed([x.env EXCEPT !.links = env.links], x.log)

(* env.status is the status of the last one that rejected *)
TryAll(e, ms, env, status, segs, method, log) ==
  IF ms = <<>> THEN Passed([env EXCEPT !.status = status], log)
  ELSE LET m == Head(ms)
           i == LastEntry(e, LAMBDA y : NodeOf(Segments(y.pat)) = m.node)
           at == [env EXCEPT !.asg = m.asg, !.vix = IF VarCount(m.asg) > env.vix THEN VarCount(m.asg) ELSE env.vix]
           x == IF i = 0 THEN Passed([at EXCEPT !.status = 404], log) ELSE Run(e[i].r, at, segs, method, log)
       IN IF x.ok THEN x
          ELSE TryAll(e, Tail(ms), env, x.env.status, segs, method, x.log)

Outcome(r, path, method, status0, vars0) ==
  LET x == Run(r, Fresh(status0, vars0), Segments(path), method, <<>>)
  IN [answered |-> x.ok, log |-> x.log, status |-> x.env.status,
      (* what the client gets *)
      sent |-> IF x.ok THEN x.env.status ELSE IF x.env.status = 200 THEN 404 ELSE x.env.status,
      untouched |-> x.ok \/ [x.env EXCEPT !.status = 0] = [Fresh(0, vars0) EXCEPT !.status = 0]]
=============================================================================
