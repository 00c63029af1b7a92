----------------------------- MODULE PathCheck -----------------------------
(***************************************************************************)
(* Paths as sequences of bytes, their components, and where they lead from *)
(* a base directory when they are resolved by their text alone.            *)
(***************************************************************************)
EXTENDS Integers, Sequences

Slash == 47  Dot == 46
Absolute(p) == p # <<>> /\ p[1] = Slash

RECURSIVE SplitFrom(_, _, _, _)
SplitFrom(p, i, part, acc) ==
  IF i > Len(p) THEN Append(acc, part)
  ELSE IF p[i] = Slash THEN SplitFrom(p, i + 1, <<>>, Append(acc, part))
  ELSE SplitFrom(p, i + 1, Append(part, p[i]), acc)
(* what's between the slashes *)
Parts(p) == SplitFrom(p, 1, <<>>, <<>>)

Current == <<Dot>>
Parent == <<Dot, Dot>>

(* "" if the path is fine, or the first thing that's wrong with it *)
Verdict(p) ==
  LET parts == Parts(p)
  IN IF Absolute(p) THEN "root" ELSE IF \E i \in DOMAIN parts : parts[i] = Parent THEN "parent" ELSE ""

(* One part at a time, from an absolute directory given as the names from the root. *)
Step(dir, part) ==
  IF part \in {<<>>, Current} THEN dir
  ELSE IF part = Parent THEN SubSeq(dir, 1, IF dir = <<>> THEN 0 ELSE Len(dir) - 1)
  ELSE Append(dir, part)
RECURSIVE Walk(_, _)
Walk(dir, parts) == IF parts = <<>> THEN dir ELSE Walk(Step(dir, Head(parts)), Tail(parts))

(* the location of p, relative to the directory base *)
Location(base, p) == Walk(IF Absolute(p) THEN <<>> ELSE base, Parts(p))
Within(base, dir) == Len(dir) >= Len(base) /\ SubSeq(dir, 1, Len(base)) = base
=============================================================================
