------------------------------ MODULE Global ------------------------------
(***************************************************************************)
(* Global data: one value for each type. Types are numbers, values too,    *)
(* and the content is the set of <<type, value>>. A container is built     *)
(* from a list of pairs, where the last value of each type counts.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Kept(m, t) == {p \in m : p[1] # t}
Put(m, t, v) == Kept(m, t) \cup {<<t, v>>}
Get(m, t) == {p[2] : p \in {q \in m : q[1] = t}}
RECURSIVE PutAll(_, _)
PutAll(m, pairs) == IF pairs = <<>> THEN m ELSE PutAll(Put(m, Head(pairs)[1], Head(pairs)[2]), Tail(pairs))

(* the content after each insertion, and the value it returned *)
RECURSIVE Course(_, _, _)
Course(m, inserts, acc) ==
  IF inserts = <<>> THEN acc
  ELSE LET i == Head(inserts)  n == Put(m, i[1], i[2]) IN Course(n, Tail(inserts), Append(acc, [old |-> Get(m, i[1]), m |-> n]))
=============================================================================
