----------------------------- MODULE MCGlobal -----------------------------
(* The container as it's represented, with nothing, one value or a map, and
   all short histories from every constructor. *)
EXTENDS Global, TLC, Json

CONSTANTS Types, Depth(_), Sizes, Patterns

VARIABLES built, inserts, m, repr

(* the types of a tuple of n values *)
TypesOf(pattern, n) ==
  [i \in 1..n |-> CASE pattern = "distinct" -> i - 1
                    [] pattern = "reverse" -> n - i
                    [] pattern = "same" -> 0
                    [] pattern = "alternate" -> i % 2
                    [] pattern = "bracket" -> IF i = n THEN 0 ELSE i - 1]
Tuple(pattern, n) == LET t == TypesOf(pattern, n) IN [i \in 1..n |-> <<t[i], i>>]

Built == {[how |-> "default", pairs |-> <<>>], [how |-> "unit", pairs |-> <<>>]} \cup {[how |-> "box", pairs |-> <<<<t, 1>>>>] : t \in Types}
         \cup {[how |-> "tuple", pairs |-> Tuple(p, n)] : p \in Patterns, n \in Sizes}

None == [is |-> "none"]
One(t, v) == [is |-> "one", t |-> t, v |-> v]
Many(map) == [is |-> "many", map |-> map]
Represent(b) == CASE b.how \in {"default", "unit"} -> None
                  [] b.how = "box" \/ Len(b.pairs) = 1 -> One(b.pairs[1][1], b.pairs[1][2])
                  [] OTHER -> Many(PutAll({}, b.pairs))
Content(r) == CASE r.is = "none" -> {} [] r.is = "one" -> {<<r.t, r.v>>} [] r.is = "many" -> r.map
Inserted(r, t, v) ==
  CASE r.is = "none" -> One(t, v)
    [] r.is = "one" -> IF r.t = t THEN One(t, v) ELSE Many({<<r.t, r.v>>, <<t, v>>})
    [] r.is = "many" -> Many(Put(r.map, t, v))

Init == built \in Built /\ inserts = <<>> /\ m = PutAll({}, built.pairs) /\ repr = Represent(built)
Out == PrintT(ToJson([built |-> built, first |-> PutAll({}, built.pairs), inserts |-> inserts, after |-> Course(PutAll({}, built.pairs), inserts, <<>>)]))
Do == \E t \in Types :
        LET v == 100 + Len(inserts) IN
        /\ Len(inserts) < Depth(Len(built.pairs))
        /\ inserts' = Append(inserts, <<t, v>>) /\ m' = Put(m, t, v) /\ repr' = Inserted(repr, t, v) /\ UNCHANGED built
Next == Do /\ Out'
Spec == (Init /\ Out) /\ [][Next]_<<built, inserts, m, repr>>

QuickDepth(n) == IF n <= 2 THEN 4 ELSE 2
ThoroughDepth(n) == IF n <= 2 THEN 6 ELSE 4

Represents == Content(repr) = m
OneEach == \A t \in Types : Cardinality(Get(m, t)) <= 1
Others == \A p \in m : (\E i \in DOMAIN inserts : inserts[i] = p) \/ (\E i \in DOMAIN built.pairs : built.pairs[i] = p)
Latest == \A i \in DOMAIN inserts : (\A j \in (i + 1)..Len(inserts) : inserts[j][1] # inserts[i][1]) => inserts[i] \in m
=============================================================================
