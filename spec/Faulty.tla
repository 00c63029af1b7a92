------------------------------- MODULE Faulty -------------------------------
(***************************************************************************)
(* A response on a connection that breaks. The connection takes a number   *)
(* of bytes after the head of the response (or not even all of the head),  *)
(* possibly only a few at a time, and fails from then on. An operation     *)
(* must not succeed if something of what it gave away wasn't taken.        *)
(*                                                                         *)
(* The sinks are those of Writing, where the last filter of a chunked one  *)
(* may be "wrap", which adds something at the beginning and the end, and   *)
(*   [t |-> "data", fs]  what is sent all at once                          *)
(*   [t |-> "file"]      what is sent as a file                            *)
(* Each of them has a field held, for if the connection keeps everything   *)
(* until it's told to send it, so nothing is noticed before that.          *)
(* The operations are [o, d], where o is                                   *)
(*   "try" (which reports errors), "quiet" (which doesn't), "write",       *)
(*   "write_all", "flush", and finally "end" or "drop".                    *)
(***************************************************************************)
EXTENDS Writing

CRLF == <<13, 10>>
Hex(n) == <<IF n < 10 THEN 48 + n ELSE 55 + n>>
RECURSIVE HexNumber(_)
HexNumber(n) == IF n < 16 THEN Hex(n) ELSE HexNumber(n \div 16) \o Hex(n % 16)
(* nothing is written for nothing, since that would be the last chunk *)
Chunk(d) == IF d = <<>> THEN <<>> ELSE HexNumber(Len(d)) \o CRLF \o d \o CRLF
LastChunk == <<48>> \o CRLF \o CRLF

Wraps(fs) == fs # <<>> /\ fs[Len(fs)] = "wrap"
Beginning(fs) == IF Wraps(fs) THEN <<60>> ELSE <<>>
Ending(fs) == IF Wraps(fs) THEN <<62>> ELSE <<>>
PerByte(fs) == IF Wraps(fs) THEN SubSeq(fs, 1, Len(fs) - 1) ELSE fs

(* the connection, where left is what it still takes. What is given to one that *)
(* is held waits until it's flushed or closed, including the head.              *)
Connection(cap, held) == [left |-> cap, broken |-> cap < 0 /\ ~held, out |-> <<>>, held |-> held, wait |-> <<>>]
Taken(c, b) ==
  IF b = <<>> THEN c
  ELSE IF c.broken THEN c
  ELSE IF Len(b) <= c.left THEN [c EXCEPT !.out = @ \o b, !.left = @ - Len(b)]
  ELSE [c EXCEPT !.left = 0, !.broken = TRUE, !.out = @ \o SubSeq(b, 1, c.left)]
Deliver(c, b) == IF c.held THEN [c EXCEPT !.wait = @ \o b] ELSE Taken(c, b)
Delivered(c, b) == c.held \/ b = <<>> \/ (~c.broken /\ Len(b) <= c.left)
Flushed(c) ==
  IF ~c.held THEN c
  ELSE IF c.left < 0 THEN [c EXCEPT !.broken = TRUE]
  ELSE [Taken(c, c.wait) EXCEPT !.wait = <<>>]

(* a response that is being written: headless if the head or the beginning wasn't delivered *)
Started(sink, cap) ==
  LET c == Connection(cap, sink.held)
      b == IF sink.t = "chunked" THEN Chunk(Beginning(sink.fs)) ELSE <<>>
  IN [c |-> Deliver(c, b), headless |-> c.broken \/ ~Delivered(c, b), remain |-> IF sink.t = "raw" THEN sink.n ELSE 0]

Failed(s) == [s |-> s, ok |-> FALSE, n |-> 0]
(* b is given to the connection, after which it's a success if it should be *)
Gives(s, b, fine, n) == [s |-> [s EXCEPT !.c = Deliver(@, b)], ok |-> Delivered(s.c, b) /\ fine,
                         n |-> IF Delivered(s.c, b) /\ fine THEN n ELSE 0]

(* what a flush or an end that has come this far says *)
Flushing(s) == LET c == Flushed(s.c) IN [s |-> [s EXCEPT !.c = c], ok |-> ~c.broken, n |-> 0]
Ends(sink, s) ==
  LET r == Gives(s, Chunk(Ending(sink.fs)), TRUE, 0)
      q == IF r.ok THEN Gives(r.s, LastChunk, TRUE, 0) ELSE r
  IN IF q.ok THEN Flushing(q.s) ELSE q

Step(sink, s, op) ==
  IF s.headless THEN Failed(s)
  ELSE IF op.o = "flush" THEN Flushing(s)
  ELSE IF op.o = "end" THEN
    (IF sink.t = "raw" THEN Flushing(s) ELSE Ends(sink, s))
  ELSE IF sink.t = "chunked" THEN
    (IF Refuses(sink.fs) /\ Has(op.d, Mark) THEN Failed(s)
     ELSE Gives(s, Chunk(Filtered(PerByte(sink.fs), op.d)), TRUE, Len(op.d)))
  ELSE LET n == Min2(Len(op.d), s.remain)
           r == Gives(s, SubSeq(op.d, 1, n), op.o = "write" \/ n = Len(op.d), n)
       IN [r EXCEPT !.s.remain = IF r.s.c.broken /\ ~sink.held THEN @ ELSE @ - n]

(* a chunked response that is dropped is completed as well, while one that has *)
(* failed already isn't: there's nothing more to be done on its connection.    *)
Final(sink, s, op) ==
  IF sink.t = "chunked" /\ op.o = "drop" /\ ~s.headless
  THEN Ends(sink, s)
  ELSE IF op.o = "drop" THEN Failed(s)
  ELSE Step(sink, s, op)

RECURSIVE Steps(_, _, _, _)
Steps(sink, ops, i, acc) ==
  IF i > Len(ops) THEN acc
  ELSE LET r == IF i = Len(ops) THEN Final(sink, acc.s, ops[i]) ELSE Step(sink, acc.s, ops[i])
       IN Steps(sink, ops, i + 1, [s |-> r.s, results |-> Append(acc.results, [ok |-> r.ok, n |-> r.n])])

(* what is sent at once *)
Whole(sink, d) ==
  IF sink.t = "file" THEN d
  ELSE Beginning(sink.fs) \o Filtered(PerByte(sink.fs), d) \o Ending(sink.fs)

Run(sink, ops, cap) ==
  IF sink.t \in {"data", "file"}
  THEN LET d == ops[1].d
           c == Connection(cap, sink.held)
           refused == sink.t = "data" /\ Refuses(sink.fs) /\ Has(d, Mark)
           w == IF refused THEN <<>> ELSE Whole(sink, d)
           f == Flushed(Deliver(c, w))
       IN [out |-> f.out, results |-> << [ok |-> ~refused /\ ~c.broken /\ Delivered(c, w) /\ ~f.broken, n |-> 0] >>]
  ELSE LET r == Steps(sink, ops, 1, [s |-> Started(sink, cap), results |-> <<>>])
       IN [out |-> Flushed(r.s.c).out, results |-> r.results]
(* What is sent instead of something that was refused as a whole is of no interest. *)
Refused(sink, ops) == sink.t = "data" /\ Refuses(sink.fs) /\ Has(ops[1].d, Mark)

(* Results of these are not known: quiet operations have none, and neither has *)
(* dropping. A raw response that was used before may or may not report again   *)
(* at its end that it's headless.                                              *)
Silent(sink, ops, cap, i) ==
  \/ ops[i].o \in {"quiet", "drop"}
  \/ sink.t = "raw" /\ ops[i].o = "end" /\ cap < 0 /\ ~sink.held /\ i > 1
(* how much was taken is only told by some *)
Counts(op) == op.o = "write"
Agree(sink, ops, cap, expected, observed) ==
  /\ Len(observed) = Len(expected)
  /\ \A i \in DOMAIN expected :
       \/ Silent(sink, ops, cap, i)
       \/ /\ observed[i].ok = expected[i].ok
          /\ (Counts(ops[i]) /\ expected[i].ok) => observed[i].n = expected[i].n
=============================================================================
