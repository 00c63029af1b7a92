-------------------------------- MODULE Walk --------------------------------
(***************************************************************************)
(* What a router of one's own sees of a path: its segments, and a walk     *)
(* along them, where each segment is either skipped or taken into a        *)
(* variable, and where it's possible to go back.                           *)
(*                                                                         *)
(* A variable is the segments that were fused since the last one was kept, *)
(* together with the kept one.                                             *)
(***************************************************************************)
EXTENDS Routing

(* A route is text, bytes or a list of such parts. *)
RECURSIVE AllSegments(_)
AllSegments(parts) == IF parts = <<>> THEN <<>> ELSE Segments(Head(parts)) \o AllSegments(Tail(parts))

(* at: the number of passed segments, count: the number of finished variables, *)
(* marks: the variable of each passed segment, or 0                            *)
Fresh(segs) == [segs |-> segs, at |-> 0, count |-> 0, marks |-> <<>>, saved |-> <<>>]

Passed(w, mark) == [w EXCEPT !.at = @ + 1, !.marks = IF w.at < Len(w.segs) THEN SubSeq(@, 1, w.at) \o <<mark>> ELSE @]
(* going back is meaningful as long as what was passed before the place is still the same *)
Valid(w, i) == LET s == w.saved[i] IN Len(s.marks) <= Len(w.marks) /\ SubSeq(w.marks, 1, Len(s.marks)) = s.marks

Step(w, o) ==
  CASE o[1] = "skip" -> Passed(w, 0)
    [] o[1] = "keep" -> [Passed(w, w.count + 1) EXCEPT !.count = @ + 1]
    [] o[1] = "fuse" -> Passed(w, w.count + 1)
    [] o[1] = "save" -> [w EXCEPT !.saved = Append(@, [at |-> w.at, count |-> w.count, marks |-> w.marks])]
    [] o[1] = "back" -> LET s == w.saved[o[2]] IN [w EXCEPT !.at = s.at, !.count = s.count, !.marks = s.marks]

RECURSIVE Joined(_, _, _, _)
(* the segments with a mark, with slashes between them *)
Joined(w, mark, i, acc) ==
  IF i > Len(w.marks) THEN acc
  ELSE IF w.marks[i] # mark THEN Joined(w, mark, i + 1, acc)
  ELSE Joined(w, mark, i + 1, IF acc = <<>> THEN <<w.segs[i]>> ELSE <<acc[1] \o <<Slash>> \o w.segs[i]>>)

(* the variables, given their names. Nameless ones are left out, and the last one of a name counts. *)
Marks(w) == {w.marks[i] : i \in DOMAIN w.marks} \ {0}
Variables(w, names) ==
  {<<names[n], Joined(w, n, 1, <<>>)[1]>> : n \in {n \in Marks(w) : names[n] # <<>> /\ \A k \in Marks(w) : k > n => names[k] # names[n]}}

Here(w) == IF w.at < Len(w.segs) THEN <<w.segs[w.at + 1]>> ELSE <<>>
Rest(w) == IF w.at < Len(w.segs) THEN SubSeq(w.segs, w.at + 1, Len(w.segs)) ELSE <<>>
Seen(w, names) == [get |-> Here(w), empty |-> Rest(w) = <<>>, rest |-> Rest(w), vars |-> Variables(w, names)]

(* what's seen after each of the steps *)
Course(first, ops, names) ==
  LET W[i \in 0..Len(ops)] == IF i = 0 THEN first ELSE LET w == W[i - 1] IN Step(w, ops[i])
  IN [i \in 1..Len(ops) |-> LET w == W[i] IN Seen(w, names)]
=============================================================================
