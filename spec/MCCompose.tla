----------------------------- MODULE MCCompose -----------------------------
EXTENDS Compose, TLC, Json

CONSTANTS Routers(_), Requests(_)

VARIABLES router, request, done

H(id, acc, rej) == [t |-> "h", id |-> id, accept |-> acc, rej |-> rej]
None == [t |-> "none"]
Some(r) == [t |-> "some", r |-> r]
Or(x, y) == [t |-> "or", a |-> x, b |-> y]
St(m) == [t |-> "status", m |-> m]
Me(m) == [t |-> "method", m |-> m]
Va(names, r) == [t |-> "vars", names |-> names, r |-> r]
Tr(l, e) == [t |-> "tree", linking |-> l, e |-> e]

a == <<97>>
Names == << <<120>>, <<121>>, <<>>, <<122>> >>

Leaf == {H(1, TRUE, 0), H(2, FALSE, 0), H(3, FALSE, 410), None}
Leaf2 == {H(4, TRUE, 0), H(5, FALSE, 404), H(6, FALSE, 405)}

Trees(X, Y) == {Tr(l, << [pat |-> <<47, 97>>, r |-> x], [pat |-> <<47, 58, 118>>, r |-> y] >>) : l \in BOOLEAN, x \in X, y \in Y}
               \cup {Tr(l, << [pat |-> <<42>>, r |-> x] >>) : l \in BOOLEAN, x \in X}
               \cup {Tr(l, << [pat |-> <<>>, r |-> x], [pat |-> <<58, 47, 98>>, r |-> y] >>) : l \in BOOLEAN, x \in X, y \in Y}
One(X, Y) == {Or(x, y) : x \in X, y \in Y}
             \cup {St(<< [on |-> 404, r |-> x], [on |-> 410, r |-> y] >>) : x \in X, y \in Y}
             \cup {St(<< [on |-> 200, r |-> x], [on |-> 405, r |-> y] >>) : x \in X, y \in Y}
             \cup {Me(<< [method |-> "GET", r |-> x] >>) : x \in X}
             \cup {Me(<< [method |-> "POST", r |-> y] >>) : y \in Y}
             \cup {Va(Names, x) : x \in X} \cup {Some(y) : y \in Y}
             \cup Trees(X, Y)

Small == {Va(Names, H(7, TRUE, 0)), Va(Names, H(8, FALSE, 503)), Me(<< [method |-> "POST", r |-> H(9, TRUE, 0)] >>),
          St(<< [on |-> 404, r |-> H(10, TRUE, 0)], [on |-> 405, r |-> Va(Names, H(11, FALSE, 404))] >>), St(<< [on |-> 410, r |-> Va(Names, H(12, TRUE, 0))] >>),
          Tr(FALSE, << [pat |-> <<97>>, r |-> Va(Names, H(13, FALSE, 410))], [pat |-> <<58>>, r |-> Va(Names, H(14, FALSE, 0))] >>),
          Tr(TRUE, << [pat |-> <<58, 47, 42>>, r |-> Va(Names, H(15, TRUE, 0))], [pat |-> <<42>>, r |-> Va(Names, H(16, FALSE, 503))] >>),
          H(17, TRUE, 0), [t |-> "content", id |-> 20], Va(Names, [t |-> "content", id |-> 21]), None}

QuickRouters(d) ==
  {Or(x, y) : x \in One(Leaf, Leaf2), y \in Small}
  \cup One(Small, Small)
  \cup {Tr(l, << [pat |-> <<42, 97>>, r |-> x], [pat |-> <<58, 98>>, r |-> y], [pat |-> <<97>>, r |-> Or(y, x)] >>) : l \in BOOLEAN, x \in Small, y \in Small}
  \cup {Or(Me(<< [method |-> "GET", r |-> x], [method |-> "PUT", r |-> y] >>), Or(y, St(<< [on |-> 404, r |-> x], [on |-> 405, r |-> H(18, TRUE, 0)], [on |-> 503, r |-> H(19, TRUE, 0)] >>))) : x \in Small, y \in Small}
ThoroughRouters(d) ==
  {Or(x, y) : x \in One(Leaf, Leaf2), y \in One(Leaf2, Small)}
  \cup One(One(Small, {None, H(18, FALSE, 410)}), Small) \cup One(Small, One({None, H(18, FALSE, 410)}, Small))

Req(path, m, s) == [path |-> path, method |-> m, status |-> s]
QuickRequests(d) == {Req(<<47>>, "GET", 200), Req(<<47, 97>>, "GET", 200), Req(<<47, 98>>, "GET", 404), Req(<<47, 97, 47, 98>>, "GET", 200), Req(<<47, 97>>, "POST", 405)}
ThoroughRequests(d) == {Req(p, m, s) : p \in {<<47>>, <<47, 97>>, <<47, 98>>, <<47, 97, 47, 98>>, <<47, 98, 47, 98, 47, 97>>}, m \in {"GET", "POST"}, s \in {200, 404, 410}}

Vars0 == {<< <<111, 117, 116, 101, 114>>, <<107, 101, 112, 116>> >>}

Result == Outcome(router, request.path, request.method, request.status, Vars0)

Init == router \in Routers(0) /\ request \in Requests(0) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<router, request>>
        /\ PrintT(ToJson([router |-> router, path |-> request.path, method |-> request.method, status0 |-> request.status, outcome |-> Result]))
Spec == Init /\ [][Next]_<<router, request, done>>

(***************************************************************************)
Accepting == {1, 4, 7, 9, 10, 12, 15, 17, 18, 19, 20, 21} \ {18}
AnswersOnce ==
  LET x == Result
      acc == {i \in DOMAIN x.log : x.log[i].id \in Accepting}
  IN /\ acc \subseteq {Len(x.log)}
     /\ (acc # {}) => x.answered

HandedBackUntouched == Result.untouched
NeverSilent == Result.sent # 200 \/ Result.answered
=============================================================================
