------------------------------- MODULE Utf8 -------------------------------
(***************************************************************************)
(* UTF-8 over sequences of bytes, and values that are text exactly when    *)
(* their bytes are valid UTF-8.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences

(* how many bytes follow a leading byte, or -1 *)
Need(b) == IF b \in 0..127 THEN 0 ELSE IF b \in 194..223 THEN 1 ELSE IF b \in 224..239 THEN 2 ELSE IF b \in 240..244 THEN 3 ELSE -1

(* the byte after a leading byte, which excludes overlong forms, surrogates and too large code points *)
Second(b) == CASE b = 224 -> 160..191 [] b = 237 -> 128..159 [] b = 240 -> 144..191 [] b = 244 -> 128..143 [] OTHER -> 128..191

Follows(s, i, k) == i + k <= Len(s) /\ s[i + k] \in (IF k = 1 THEN Second(s[i]) ELSE 128..191)

(* how many of the bytes from i on are the beginning of one character *)
Extent(s, i) ==
  LET n == Need(s[i]) IN
  IF n < 1 \/ ~Follows(s, i, 1) THEN 1
  ELSE IF n = 1 \/ ~Follows(s, i, 2) THEN 2
  ELSE IF n = 2 \/ ~Follows(s, i, 3) THEN 3 ELSE 4
Whole(s, i) == Need(s[i]) >= 0 /\ Extent(s, i) = Need(s[i]) + 1

RECURSIVE ValidFrom(_, _)
ValidFrom(s, i) == i > Len(s) \/ (Whole(s, i) /\ ValidFrom(s, i + Need(s[i]) + 1))
Valid(s) == ValidFrom(s, 1)

(* each longest beginning of a character that isn't completed is replaced by U+FFFD *)
Replacement == <<239, 191, 189>>
RECURSIVE LossyFrom(_, _, _)
LossyFrom(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE LET n == Extent(s, i) IN LossyFrom(s, i + n, acc \o (IF Whole(s, i) THEN SubSeq(s, i, i + n - 1) ELSE Replacement))
Lossy(s) == LossyFrom(s, 1, <<>>)

Encode(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

(* the order of bytes *)
RECURSIVE CompareFrom(_, _, _)
CompareFrom(a, b, i) ==
  IF i > Len(a) /\ i > Len(b) THEN 0
  ELSE IF i > Len(a) THEN -1
  ELSE IF i > Len(b) THEN 1
  ELSE IF a[i] < b[i] THEN -1
  ELSE IF a[i] > b[i] THEN 1
  ELSE CompareFrom(a, b, i + 1)
Compare(a, b) == CompareFrom(a, b, 1)

---------------------------------------------------------------------------
(* Values and their edits. *)
Cut(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

(* edits of a borrowed buffer, as that of any vector *)
BufferEdit(s, e) ==
  CASE e.op = "bytes" -> s \o e.d
    [] e.op = "char" -> s \o Encode(e.c)
    [] e.op = "pop" -> Cut(s, IF s = <<>> THEN 0 ELSE Len(s) - 1)
    [] e.op = "truncate" -> Cut(s, e.n)
    [] e.op = "clear" -> <<>>
    [] e.op = "remove" -> IF e.n < Len(s) THEN Without(s, e.n + 1) ELSE s
    [] e.op = "insert" -> IF e.n <= Len(s) THEN SubSeq(s, 1, e.n) \o <<e.b>> \o SubSeq(s, e.n + 1, Len(s)) ELSE s
    [] e.op = "set" -> IF e.n < Len(s) THEN [s EXCEPT ![e.n + 1] = e.b] ELSE s
    [] e.op = "reverse" -> [i \in DOMAIN s |-> s[Len(s) + 1 - i]]

RECURSIVE BufferEdits(_, _)
BufferEdits(s, es) == IF es = <<>> THEN s ELSE BufferEdits(BufferEdit(s, Head(es)), Tail(es))

Edit(s, e) ==
  CASE e.op = "push_char" -> s \o Encode(e.c)
    [] e.op = "push_byte" -> s \o <<e.b>>
    [] e.op \in {"push_str", "push_bytes"} -> s \o e.d
    [] e.op = "buffer" -> BufferEdits(s, e.edits)
    [] e.op \in {"clone", "reborrow"} -> s

RECURSIVE Edited(_, _)
Edited(s, es) == IF es = <<>> THEN s ELSE Edited(Edit(s, Head(es)), Tail(es))

(* what is known about the value after each edit *)
Facts(s) == [bytes |-> s, text |-> Valid(s), lossy |-> Lossy(s)]
RECURSIVE History(_, _, _)
History(s, es, acc) == IF es = <<>> THEN acc ELSE LET t == Edit(s, Head(es)) IN History(t, Tail(es), Append(acc, Facts(t)))
=============================================================================
