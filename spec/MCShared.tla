----------------------------- MODULE MCShared -----------------------------
(* Bounded instances of Shared. *)
EXTENDS Shared

Sl(ss) == LET F[i \in 0..Len(ss)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o <<Slash>> \o ss[i] IN F[Len(ss)]
a == <<97>>
b == <<98>>
v(n) == <<Colon, 117 + n>>
w(n) == <<Star, 117 + n>>
On(r, x) == [r EXCEPT !.on = x]

Tables ==
  << (* several matches, and who takes it is never the first *)
     [kind |-> "opt", table |-> <<Reg(Sl(<<a, v(1)>>), "GET", 1, FALSE, 410), Reg(Sl(<<w(2)>>), "GET", 2, TRUE, 0), Reg(Sl(<<v(3), b>>), "GET", 3, FALSE, 0)>>],
     (* nobody takes it *)
     [kind |-> "opt", table |-> <<Reg(Sl(<<a, b>>), "GET", 1, FALSE, 0), Reg(Sl(<<a, v(2)>>), "GET", 2, FALSE, 503)>>],
     (* the same variables with other names *)
     [kind |-> "opt", table |-> <<Reg(Sl(<<w(1), b>>), "GET", 1, FALSE, 204), Reg(Sl(<<v(2), v(3)>>), "GET", 2, FALSE, 0), Reg(Sl(<<a, w(4)>>), "GET", 4, TRUE, 0)>>],
     [kind |-> "opt", table |-> <<Reg(Sl(<<a>>), "GET", 1, TRUE, 0), Reg(<<>>, "GET", 2, TRUE, 0), Reg(Sl(<<v(1), w(2)>>), "GET", 3, TRUE, 0)>>],
     (* methods *)
     [kind |-> "meth", table |-> <<Reg(Sl(<<a, b>>), "GET", 1, TRUE, 0), Reg(Sl(<<a, v(1)>>), "POST", 2, TRUE, 0), Reg(Sl(<<w(2)>>), "GET", 4, TRUE, 0)>>],
     [kind |-> "meth", table |-> <<Reg(Sl(<<v(1)>>), "GET", 1, FALSE, 410), Reg(Sl(<<a>>), "POST", 2, FALSE, 0), Reg(Sl(<<w(3)>>), "POST", 3, TRUE, 0)>>],
     [kind |-> "meth", table |-> <<Reg(Sl(<<w(1), w(2)>>), "GET", 1, FALSE, 0), Reg(Sl(<<w(1), w(2)>>), "POST", 2, TRUE, 0)>>],
     (* alternatives, and statuses *)
     [kind |-> "or", table |-> <<On(Reg(Sl(<<a, v(1)>>), "GET", 1, FALSE, 410), 0), On(Reg(Sl(<<a, v(2)>>), "GET", 2, TRUE, 0), 1), On(Reg(Sl(<<w(3)>>), "POST", 3, TRUE, 0), 1)>>],
     [kind |-> "stat", table |-> <<On(Reg(Sl(<<a, v(1)>>), "GET", 1, FALSE, 503), 200), On(Reg(Sl(<<a, v(2)>>), "GET", 2, TRUE, 0), 503), On(Reg(Sl(<<a, b>>), "POST", 3, TRUE, 0), 200)>>] >>

All(dummy) == {[kind |-> Tables[i].kind, table |-> Tables[i].table, linking |-> l] : i \in DOMAIN Tables, l \in BOOLEAN}

Q(p, m, s) == [path |-> p, method |-> m, status |-> s]
(* requests that differ in one thing *)
Some(i) == {Q(Sl(<<a, b>>), "GET", 200), Q(Sl(<<a, b>>), "POST", 200), Q(Sl(<<b, b>>), "GET", 200), Q(Sl(<<a>>), "GET", 503)}
More(i) == Some(i) \cup {Q(Sl(<<a, b, b>>), "GET", 200), Q(Sl(<<a, b>>), "GET", 503)}
Quick(i) == Some(i)
Least(i) == {Q(Sl(<<a, b>>), "GET", 200), Q(Sl(<<a, b>>), "POST", 200), Q(Sl(<<b, b>>), "GET", 503)}
=============================================================================
