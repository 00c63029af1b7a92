----------------------------- MODULE MCParams -----------------------------
(* All short histories of a collection, and all small values of one
   parameter with everything they can be parsed as. *)
EXTENDS Params, TLC, Json

CONSTANTS Keys, Values(_), Depth, Alphabet, Length, Family

VARIABLES ops, m

N1 == <<97>>  N2 == <<98>>  N3 == <<255>>  N4 == <<>>  N5 == <<195, 165>>
QuickKeys == {<<97>>, <<255>>, <<>>}
ThoroughKeys == {<<97>>, <<255>>, <<>>, <<195, 165>>}
V1 == {<<49>>, <<120>>, <<226, 130>>}
QuickValues(d) == {<<49>>, <<226, 130>>}
ThoroughValues(d) == V1

Kv(op, k, v) == [op |-> op, k |-> k, v |-> v]
Ops(d) ==
  {Kv(op, k, v) : op \in {"insert", "entry", "push"}, k \in Keys, v \in Values(0)}
  \cup {[op |-> "remove", k |-> k] : k \in Keys}
  \cup {[op |-> op, pairs |-> <<<<k, v>>, <<j, w>>>>] : op \in {"extend", "from"}, k \in Keys, j \in Keys, v \in Values(0), w \in Values(0)}
  \cup {[op |-> "push_all", v |-> v] : v \in Values(0)}
  \cup {[op |-> o] : o \in {"clear", "clone", "convert", "collect"}}

(* characters that numbers, booleans and others are made of *)
Letters == {<<48>>, <<49>>, <<50>>, <<53>>, <<54>>, <<57>>, <<43>>, <<45>>, <<32>>, <<120>>, <<195>>, <<165>>, <<0>>}
FewLetters == {<<49>>, <<50>>, <<53>>, <<54>>, <<45>>, <<43>>}
Words == {True, False, <<84, 114, 117, 101>>, <<116, 114, 117, 101, 32>>, <<54, 53, 53, 51, 53>>, <<54, 53, 53, 51, 54>>, <<48, 48, 48, 48, 48, 48, 50, 53, 53>>,
          <<45, 49, 50, 56>>, <<45, 49, 50, 57>>, <<45, 48>>, <<49, 50, 55>>, <<49, 50, 56>>, <<50, 53, 53, 255>>, <<240, 159, 146, 150>>, <<226, 130, 172>>,
          <<226, 130>>, <<49, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48>>, <<49, 46, 48>>, <<48, 120, 49>>}

Insert(v) == Kv("insert", <<107>>, v)
Init == \/ Family = "histories" /\ ops = <<>> /\ m = {}
        \/ Family = "histories" /\ \E v \in Words : ops = <<Insert(v)>> /\ m = {<<<<107>>, v>>}
        \/ Family = "values" /\ ops = <<Insert(<<>>)>> /\ m = {<<<<107>>, <<>>>>}

Grow == /\ Family = "values" /\ Len(ops[1].v) < Length
        /\ \E a \in Alphabet : ops' = <<Insert(ops[1].v \o a)>> /\ m' = {<<<<107>>, ops[1].v \o a>>}
Do == /\ Family = "histories" /\ Len(ops) < Depth /\ (IF ops = <<>> THEN TRUE ELSE Head(ops) \notin {Insert(v) : v \in Words})
      /\ \E o \in Ops(0) : ops' = Append(ops, o) /\ m' = After(m, o)
Looked == IF Family = "histories" THEN Keys \cup {<<107>>} ELSE {<<107>>}
Out == PrintT(ToJson([ops |-> ops, after |-> Course({}, ops, <<>>), access |-> {[k |-> k, a |-> Access(m, k)] : k \in Looked}]))
Next == (Grow \/ Do) /\ Out'
Spec == (Init /\ Out) /\ [][Next]_<<ops, m>>

(* it's a map, and the latest value of each name is in it *)
IsMap == \A p, q \in m : p[1] = q[1] => p = q
Follows_ == m = AfterAll({}, ops)
LatestInsert == \A i \in DOMAIN ops : ops[i].op = "insert" /\ (\A j \in (i + 1)..Len(ops) : ops[j].op \in {"insert", "remove", "clone", "entry"} /\ (ops[j].op = "clone" \/ ops[j].k # ops[i].k))
                                       => <<ops[i].k, ops[i].v>> \in m
RemovedIsGone == Len(ops) > 0 /\ ops[Len(ops)].op = "remove" => ops[Len(ops)].k \notin Names(m)
(* present and missing are told apart, and the default is used only for what isn't ok *)
Told == \A k \in Looked, t \in {Types[i] : i \in DOMAIN Types} :
          LET p == Parsed(m, k, t) IN /\ p.is = "missing" <=> k \notin Names(m)
                                      /\ p.is = "ok" <=> p.value # <<>>
                                      /\ p.is # "ok" => Otherwise(p, Default(t)) = Default(t)
=============================================================================
