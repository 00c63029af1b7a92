------------------------------- MODULE Target -------------------------------
(***************************************************************************)
(* How the target of a request is decoded, as sequences of bytes.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Slash == 47  Question == 63  Hash == 35  Amp == 38  Equal == 61  Percent == 37  Plus == 43  Space == 32  Star == 42  Colon == 58  At == 64

(* the position of the first x at or after n, or after the end *)
Find(s, x, n) == CHOOSE i \in n..(Len(s) + 1) : (i > Len(s) \/ s[i] = x) /\ \A j \in n..(i - 1) : s[j] # x
Before(s, x) == SubSeq(s, 1, Find(s, x, 1) - 1)
After(s, x) == SubSeq(s, Find(s, x, 1) + 1, Len(s))
Has(s, x) == \E i \in DOMAIN s : s[i] = x

(* what's between the places where x is *)
Split(s, x) ==
  LET RECURSIVE From(_, _)
      From(n, acc) == LET at == Find(s, x, n) part == Append(acc, SubSeq(s, n, at - 1)) IN IF at > Len(s) THEN part ELSE From(at + 1, part)
  IN From(1, <<>>)

Hex(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1

(* An escape that isn't one is kept as it is. They can't overlap, since no
   digit is a percent sign. *)
Escaped(s, i) == s[i] = Percent /\ i + 2 <= Len(s) /\ Hex(s[i + 1]) >= 0 /\ Hex(s[i + 2]) >= 0
Unescape(text) ==
  LET s == TLCEval(text)
      byte(i) == IF Escaped(s, i) THEN 16 * Hex(s[i + 1]) + Hex(s[i + 2])
                 ELSE IF (i > 1 /\ Escaped(s, i - 1)) \/ (i > 2 /\ Escaped(s, i - 2)) THEN -1 ELSE s[i]
  IN SelectSeq([i \in 1..Len(s) |-> byte(i)], LAMBDA b : b >= 0)

Unplus(s) == [i \in DOMAIN s |-> IF s[i] = Plus THEN Space ELSE s[i]]

(* the last value of a name counts *)
Params(s) ==
  LET parts == TLCEval(Split(s, Amp))
      used == {i \in DOMAIN parts : parts[i] # <<>>}
      name == TLCEval([i \in used |-> Unescape(Unplus(Before(parts[i], Equal)))])
      value(i) == IF Has(parts[i], Equal) THEN Unescape(Unplus(Before(After(parts[i], Equal), Equal))) ELSE <<>>
  IN {<<name[i], value(i)>> : i \in {i \in used : \A j \in used : j > i => name[j] # name[i]}}

(* what follows the authority, or all of it *)
Parts(s) ==
  LET whole == Before(s, Hash)
      raw == Before(whole, Question)
      path == Unescape(raw)
  IN [path |-> IF path = <<>> THEN <<Slash>> ELSE path,
      query |-> IF Has(whole, Question) THEN Params(After(whole, Question)) ELSE {},
      fragment |-> IF Has(s, Hash) THEN <<Unescape(After(s, Hash))>> ELSE <<>>]

U == INSTANCE Utf8
(* the same path as text, if it is text, or as something close to it, or on display *)
Views(path, is) ==
  IF is THEN LET text == TLCEval(U!Valid(path)) lossy == IF text THEN path ELSE TLCEval(U!Lossy(path)) IN
             [path |-> TRUE, text |-> IF text THEN <<path>> ELSE <<>>, lossy |-> <<lossy>>, shown |-> lossy]
  ELSE [path |-> FALSE, text |-> <<>>, lossy |-> <<>>, shown |-> <<Star>>]

Nothing == [path |-> <<>>, query |-> {}, fragment |-> <<>>]

(* The forms of targets. An absolute target is given in its parts, as
   scheme "http" or "https", name, port (-1 if there is none) and rest. *)
DefaultPort(scheme) == IF scheme = "http" THEN 80 ELSE 443

Understood(t) ==
  CASE t.form = "origin" -> [parts |-> Parts(t.rest), host |-> [name |-> "", port |-> -1], handled |-> TRUE, status |-> 200]
    [] t.form = "absolute" -> [parts |-> Parts(t.rest), host |-> [name |-> t.name, port |-> IF t.port = DefaultPort(t.scheme) THEN -1 ELSE t.port],
                               handled |-> TRUE, status |-> 200]
    [] t.form = "asterisk" -> [parts |-> Nothing, host |-> [name |-> "", port |-> -1], handled |-> FALSE, status |-> 200]
    [] t.form = "authority" -> [parts |-> Nothing, host |-> [name |-> "", port |-> -1], handled |-> FALSE, status |-> 400]
(* No one sees the target if there's no request for it. *)
Decoded(t) ==
  LET d == TLCEval(Understood(t)) IN
  [parts |-> d.parts, host |-> d.host, handled |-> d.handled, status |-> d.status,
   views |-> IF t.form = "authority" THEN <<>> ELSE <<Views(d.parts.path, d.handled)>>]
=============================================================================
