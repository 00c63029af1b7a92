------------------------------- MODULE Writing -------------------------------
(***************************************************************************)
(* A response as a writer. Some adapter is given pieces of bytes, and it's *)
(* free to keep them as long as it likes and to hand them on split up in   *)
(* any way, as long as it's done in order, and with everything when it's   *)
(* flushed. What comes out must not depend on what it did.                 *)
(*                                                                         *)
(* The sink is [t |-> "chunked", fs] where fs is a sequence of filters     *)
(* that work on one byte at a time, or [t |-> "raw", n] where n is the     *)
(* declared length:                                                        *)
(*   "id", "inc" (the next byte), "double", "odd" (drops even bytes), and  *)
(*   "abort" (which refuses a piece that contains a '!')                   *)
(* Refusing filters come first.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL INSTANCE SequencesExt

Mark == 33

RECURSIVE OneByte(_, _)
OneByte(f, d) ==
  CASE f \in {"id", "abort"} -> d
    [] f = "inc" -> [i \in DOMAIN d |-> (d[i] + 1) % 256]
    [] f = "double" -> [i \in 1..2 * Len(d) |-> d[(i + 1) \div 2]]
    [] f = "odd" -> SelectSeq(d, LAMBDA b : b % 2 = 1)

Filtered(fs, d) == FoldLeft(LAMBDA acc, f : OneByte(f, acc), d, fs)

Refuses(fs) == \E i \in DOMAIN fs : fs[i] = "abort"
Has(d, b) == \E i \in DOMAIN d : d[i] = b
Before(d, b) == IF Has(d, b) THEN SubSeq(d, 1, (CHOOSE i \in DOMAIN d : d[i] = b /\ \A j \in 1..(i - 1) : d[j] # b) - 1) ELSE d

Begins(d, e) == IsPrefix(d, e)
All(ds) == FlattenSeq(ds)

Min2(m, n) == IF m < n THEN m ELSE n

(* what is written with one call: the number of bytes taken, whether it failed, and what is sent *)
Put(sink, sent, d) ==
  IF sink.t = "chunked"
  THEN IF Refuses(sink.fs) /\ Has(d, Mark) THEN [n |-> 0, failed |-> TRUE, out |-> <<>>]
       ELSE [n |-> Len(d), failed |-> FALSE, out |-> Filtered(sink.fs, d)]
  ELSE LET n == Min2(Len(d), sink.n - sent)
       IN [n |-> n, failed |-> n = 0 /\ d # <<>>, out |-> SubSeq(d, 1, n)]

(* what is expected, whatever the adapter does *)
Fails(sink, data) == IF sink.t = "chunked" THEN Refuses(sink.fs) /\ Has(data, Mark) ELSE Len(data) > sink.n
Limit(sink, data) ==
  IF sink.t = "raw" THEN SubSeq(data, 1, Min2(Len(data), sink.n))
  ELSE Filtered(sink.fs, IF Refuses(sink.fs) THEN Before(data, Mark) ELSE data)
(* a failing adapter may lose what it kept *)
Fine(sink, data, failed, body) ==
  /\ failed = Fails(sink, data)
  /\ IF failed THEN Begins(body, Limit(sink, data)) ELSE body = Limit(sink, data)
=============================================================================
