---------------------------- MODULE MCPathCheck ----------------------------
(* All small paths, and the walk along each from some base directory. *)
EXTENDS PathCheck, TLC, Json

CONSTANTS Tokens, Length, Bases

VARIABLES path, n, base, dir, rest, walking

QuickTokens == {<<47>>, <<46>>, <<46, 46>>, <<97>>, <<92>>, <<255>>, <<47, 46, 46>>}
ThoroughTokens == QuickTokens \cup {<<32>>, <<0>>, <<46, 46, 47>>, <<47, 47>>}
SomeBases == {<<>>, <<<<98>>>>, <<<<97>>, <<97>>>>}

Init == path = <<>> /\ n = 0 /\ base \in Bases /\ dir = base /\ rest = <<>> /\ walking = FALSE
Grow == /\ ~walking /\ n < Length
        /\ \E t \in Tokens : path' = path \o t
        /\ n' = n + 1 /\ UNCHANGED <<base, dir, rest, walking>>
Begin == /\ ~walking
         /\ walking' = TRUE /\ rest' = Parts(path) /\ dir' = (IF Absolute(path) THEN <<>> ELSE base) /\ UNCHANGED <<path, n, base>>
         /\ (base = <<>> => PrintT(ToJson([path |-> path, verdict |-> Verdict(path)])))
Along == /\ walking /\ rest # <<>>
         /\ dir' = Step(dir, Head(rest)) /\ rest' = Tail(rest) /\ UNCHANGED <<path, n, base, walking>>
Next == Grow \/ Begin \/ Along
Spec == Init /\ [][Next]_<<path, n, base, dir, rest, walking>>

(* an accepted path never leaves the base, at any step *)
Contained == walking /\ Verdict(path) = "" => Within(base, dir)
Arrives == walking /\ rest = <<>> => dir = Location(base, path)
(* without a parent step or the root there's nothing to complain about, and joined names are appended *)
Accepts == walking /\ rest = <<>> /\ Verdict(path) = "" => Len(dir) = Len(base) + Len(SelectSeq(Parts(path), LAMBDA x : x \notin {<<>>, Current}))
=============================================================================
