------------------------------ MODULE Params ------------------------------
(***************************************************************************)
(* A collection of parameters is a map from names to values, both being    *)
(* sequences of bytes, and is given as the set of its <<name, value>>      *)
(* pairs. Typed access parses the value as text.                           *)
(***************************************************************************)
EXTENDS Utf8, FiniteSets

Names(m) == {p[1] : p \in m}
ValueOf(m, k) == (CHOOSE p \in m : p[1] = k)[2]
Put(m, k, v) == {p \in m : p[1] # k} \cup {<<k, v>>}
Drop(m, k) == {p \in m : p[1] # k}
RECURSIVE PutAll(_, _)
PutAll(m, pairs) == IF pairs = <<>> THEN m ELSE PutAll(Put(m, Head(pairs)[1], Head(pairs)[2]), Tail(pairs))

(* a value, if any *)
Maybe(m, k) == IF k \in Names(m) THEN <<ValueOf(m, k)>> ELSE <<>>

---------------------------------------------------------------------------
(* Parsing. Each gives <<value>> or <<>>. *)
Digits(s) == \A i \in DOMAIN s : s[i] \in 48..57
RECURSIVE ValueFrom(_, _, _, _)
(* stops when it's too large anyhow *)
ValueFrom(s, i, acc, limit) == IF i > Len(s) \/ acc > limit THEN acc ELSE ValueFrom(s, i + 1, 10 * acc + s[i] - 48, limit)
Unsigned(s, limit) ==
  LET d == IF s # <<>> /\ s[1] = 43 THEN Tail(s) ELSE s
  IN IF d = <<>> \/ ~Digits(d) THEN <<>>
     ELSE LET n == ValueFrom(d, 1, 0, limit) IN IF n > limit THEN <<>> ELSE <<n>>
Signed(s, low, high) ==
  IF s # <<>> /\ s[1] = 45
  THEN LET d == Tail(s) IN IF d = <<>> \/ ~Digits(d) THEN <<>> ELSE LET n == ValueFrom(d, 1, 0, -low) IN IF n > -low THEN <<>> ELSE <<-n>>
  ELSE Unsigned(s, high)
True == <<116, 114, 117, 101>>
False == <<102, 97, 108, 115, 101>>
Boolean(s) == IF s = True THEN <<1>> ELSE IF s = False THEN <<0>> ELSE <<>>
(* one character *)
Char(s) == IF s # <<>> /\ Need(s[1]) + 1 = Len(s) THEN <<s>> ELSE <<>>

(* what the text is parsed as. Strings and characters are given as bytes. *)
Parse(type, s) ==
  CASE type = "u8" -> Unsigned(s, 255)
    [] type = "u16" -> Unsigned(s, 65535)
    [] type = "i8" -> Signed(s, -128, 127)
    [] type = "bool" -> Boolean(s)
    [] type = "char" -> Char(s)
    [] type = "string" -> <<s>>

(* "ok" and the value, "missing" or "bad" *)
Parsed(m, k, type) ==
  IF k \notin Names(m) THEN [is |-> "missing", value |-> <<>>]
  ELSE LET v == Parse(type, Lossy(ValueOf(m, k))) IN [is |-> IF v = <<>> THEN "bad" ELSE "ok", value |-> v]
Otherwise(p, default) == IF p.is = "ok" THEN p.value[1] ELSE default

---------------------------------------------------------------------------
(* One operation, with what it returns. *)
Op(m, o) ==
  CASE o.op = "insert" -> [m |-> Put(m, o.k, o.v), r |-> Maybe(m, o.k)]
    [] o.op = "remove" -> [m |-> Drop(m, o.k), r |-> Maybe(m, o.k)]
    [] o.op \in {"extend", "from"} -> [m |-> PutAll(IF o.op = "from" THEN {} ELSE m, o.pairs), r |-> <<>>]
    [] o.op = "clear" -> [m |-> {}, r |-> <<>>]
    [] o.op = "entry" -> IF o.k \in Names(m) THEN [m |-> m, r |-> Maybe(m, o.k)] ELSE [m |-> Put(m, o.k, o.v), r |-> <<o.v>>]
    [] o.op = "push" -> [m |-> IF o.k \in Names(m) THEN Put(m, o.k, ValueOf(m, o.k) \o o.v) ELSE m, r |-> <<>>]
    [] o.op = "push_all" -> [m |-> {<<p[1], p[2] \o o.v>> : p \in m}, r |-> <<>>]
    [] o.op \in {"clone", "convert", "collect"} -> [m |-> m, r |-> <<>>]

Returned(m, o) == Op(m, o).r
After(m, o) == Op(m, o).m

RECURSIVE AfterAll(_, _)
AfterAll(m, os) == IF os = <<>> THEN m ELSE AfterAll(After(m, Head(os)), Tail(os))

(* everything that's known about a name *)
Types == <<"u8", "u16", "i8", "bool", "char", "string">>
Default(type) == IF type \in {"char", "string"} THEN <<100>> ELSE IF type = "bool" THEN 1 ELSE 7
Access(m, k) ==
  [raw |-> Maybe(m, k), lossy |-> IF k \in Names(m) THEN <<Lossy(ValueOf(m, k))>> ELSE <<>>, has |-> k \in Names(m),
   parsed |-> [i \in DOMAIN Types |-> LET p == Parsed(m, k, Types[i]) IN [type |-> Types[i], is |-> p.is, or |-> Otherwise(p, Default(Types[i]))]]]

RECURSIVE Course(_, _, _)
Course(m, os, acc) == IF os = <<>> THEN acc ELSE Course(After(m, Head(os)), Tail(os), Append(acc, [r |-> Returned(m, Head(os)), m |-> After(m, Head(os))]))
=============================================================================
