------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* How a server is set up: host addresses, the documented defaults of what *)
(* isn't set, and the pool of threads that work on the connections.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(***************************************************************************)
(* Addresses. They are made in different ways, and given other ports.      *)
(***************************************************************************)
V4(ip, port) == [v6 |-> FALSE, ip |-> ip, port |-> port, flow |-> 0, scope |-> 0]
V6(ip, port, flow, scope) == [v6 |-> TRUE, ip |-> ip, port |-> port, flow |-> flow, scope |-> scope]
AnyV4(port) == V4(<<0, 0, 0, 0>>, port)

Digit(b) == b >= 48 /\ b <= 57
AllDigits(s) == s # <<>> /\ \A i \in DOMAIN s : Digit(s[i])
Number(s) == LET N[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE IF N[i - 1] > 99999 THEN N[i - 1] ELSE 10 * N[i - 1] + s[i] - 48 IN N[Len(s)]

(* the pieces between the separators *)
Ends(s, sep) == {i \in DOMAIN s : s[i] = sep}
Nth(set, n) == CHOOSE x \in set : Cardinality({y \in set : y < x}) = n - 1
Pieces(s, sep) ==
  LET e == Ends(s, sep)
      n == Cardinality(e)
  IN [k \in 1..(n + 1) |-> SubSeq(s, IF k = 1 THEN 1 ELSE Nth(e, k - 1) + 1, IF k = n + 1 THEN Len(s) ELSE Nth(e, k) - 1)]

Octet(s) == AllDigits(s) /\ Len(s) <= 3 /\ Number(s) <= 255 /\ (Len(s) > 1 => s[1] # 48)
PortText(s) == AllDigits(s) /\ Number(s) <= 65535
(* the text of an IPv4 address and a port; texts with brackets aren't meant *)
NoAddress == [ok |-> FALSE]
Parsed(s) ==
  LET parts == Pieces(s, 58)
      ip == Pieces(parts[1], 46)
  IN IF Len(parts) = 2 /\ Len(ip) = 4 /\ (\A i \in DOMAIN ip : Octet(ip[i])) /\ PortText(parts[2])
     THEN [ok |-> TRUE, addr |-> V4([i \in 1..4 |-> Number(ip[i])], Number(parts[2]))]
     ELSE NoAddress

Base(b) ==
  CASE b.how \in {"number", "any"} -> AnyV4(b.port)
    [] b.how \in {"pair", "v4", "socket4", "text4"} -> V4(b.ip, b.port)
    [] b.how \in {"v6", "socket6"} -> V6(b.ip, b.port, b.flow, b.scope)
    [] b.how = "text6" -> V6(b.ip, b.port, 0, 0)
(* the ports that are set afterwards *)
Address(b) == IF b.ports = <<>> THEN Base(b) ELSE [Base(b) EXCEPT !.port = b.ports[Len(b.ports)]]

(***************************************************************************)
(* Settings. What isn't set is "" or -1 (nothing).                         *)
(***************************************************************************)
Unset == -1
Host(c) == IF c.host = <<>> THEN AnyV4(80) ELSE Address(c.host[1])
ServerName(c) == IF c.server = <<>> THEN "rustful" ELSE c.server[1]
ContentType(c) == IF c.ctype = <<>> THEN "text/html; charset=utf-8" ELSE c.ctype[1]
Threads(c, cores) == IF c.threads = Unset THEN (cores * 5) \div 4 ELSE c.threads
(* the most threads that may be kept free, when a request is handled with
   that many connections, without closing its connection; or -1 *)
Limit(c, cores, open) == IF Threads(c, cores) >= open THEN Threads(c, cores) - open ELSE -1

(***************************************************************************)
(* The pool. Connections wait until there is a thread for them, and their  *)
(* requests come at once. A connection occupies its thread until it's      *)
(* closed. With TLS, a connection may end in its handshake.                *)
(***************************************************************************)
Pool0 == [queue |-> <<>>, held |-> {}, taken |-> <<>>, over |-> {}]

Closes(inst, pool) == inst.free < 0 \/ Cardinality(pool.held) + inst.free > inst.threads
Without(f, c) == [d \in DOMAIN f \ {c} |-> f[d]]
With(f, c, v) == [d \in DOMAIN f \cup {c} |-> IF d = c THEN v ELSE f[d]]

(* taken: what will happen to the connection after the response *)
Take(inst, pool, c) == [pool EXCEPT !.taken = With(@, c, Closes(inst, pool))]
RECURSIVE Fill(_, _)
Fill(inst, pool) ==
  IF pool.queue = <<>> \/ Cardinality(pool.held) >= inst.threads THEN pool
  ELSE LET q == Head(pool.queue)
           p == [pool EXCEPT !.queue = Tail(@)]
       IN Fill(inst, IF q.good THEN Take(inst, [p EXCEPT !.held = @ \cup {q.c}], q.c) ELSE [p EXCEPT !.over = @ \cup {q.c}])

Arrived(inst, pool, c, good) == Fill(inst, [pool EXCEPT !.queue = Append(@, [c |-> c, good |-> good])])
AskedAgain(inst, pool, c) == Take(inst, pool, c)
Ended(inst, pool, cs) == Fill(inst, [pool EXCEPT !.held = @ \ cs, !.over = @ \cup cs])
Answered(inst, pool, c) ==
  LET p == [pool EXCEPT !.taken = Without(@, c)] IN IF pool.taken[c] THEN Ended(inst, p, {c}) ELSE p
Idle(pool) == pool.held \ DOMAIN pool.taken
=============================================================================
