------------------------------- MODULE MCWalk -------------------------------
(* All short walks along some paths. *)
EXTENDS Walk, TLC, Json

CONSTANTS Depth, Routes(_), Namings(_)

VARIABLES parts, names, ops, w, seen

A == <<97>>  B == <<98>>  Ab == <<97, 98>>  E == <<>>
P(s) == s
QuickRoutes(d) ==
  { <<>>, <<E>>, <<<<Slash>>>>, <<<<Slash, Slash>>>>, <<<<Slash, Slash, Slash>>>>, <<<<Slash, 97, Slash>>>>,
    <<<<97, Slash, 98>>>>, <<<<Slash, 97, Slash, Slash, 255, Slash>>>>, <<<<97, 98, Slash, 97, Slash, 195, 165, Slash, 42>>>>,
    <<<<Slash, 97>>, <<98, Slash, 97>>>>, <<<<97, Slash>>, <<Slash>>, <<Slash, 58, 98>>>>, <<E, <<97>>, E, <<Slash, Slash, 97>>>> }
Bytes_ == {47, 97, 255}
ThoroughRoutes(d) ==
  QuickRoutes(0) \cup {<<<<a, b, c, e>>>> : a \in Bytes_, b \in Bytes_, c \in Bytes_, e \in Bytes_}
    \cup {<<<<a, b>>, <<c, e>>>> : a \in Bytes_, b \in Bytes_, c \in Bytes_, e \in Bytes_}
(* the names are more than enough *)
QuickNamings(d) == { <<A, B, Ab, <<99>>, <<100>>, <<101>>, <<102>>, <<103>>, <<104>>>>, <<A, E, A, E, B, A, E, B, A>> }

Init == /\ parts \in Routes(0) /\ names \in Namings(0) /\ ops = <<>> /\ w = Fresh(AllSegments(parts)) /\ seen = <<>>

Ops(v) == {<<"skip">>, <<"keep">>, <<"fuse">>} \cup (IF v.saved = <<>> \/ Len(v.saved) < 2 THEN {<<"save">>} ELSE {})
            \cup {<<"back", i>> : i \in {i \in DOMAIN v.saved : Valid(v, i)}}
(* not more than one step too far *)
Allowed(v, o) == o[1] \in {"save", "back"} \/ v.at <= Len(v.segs)
Out == Len(ops) < Depth \/ PrintT(ToJson([parts |-> parts, names |-> names, ops |-> ops, segs |-> w.segs, seen |-> seen]))
Next == /\ Len(ops) < Depth
        /\ \E o \in Ops(w) : Allowed(w, o) /\ ops' = Append(ops, o) /\ w' = Step(w, o) /\ seen' = Append(seen, Seen(w', names))
        /\ UNCHANGED <<parts, names>>
        /\ Out'
Spec == Init /\ [][Next]_<<parts, names, ops, w, seen>>

(* no segment is lost or repeated, wherever the walk is *)
Whole == w.at <= Len(w.segs) => SubSeq(w.segs, 1, w.at) \o Rest(w) = w.segs
OneMarkEach == Len(w.marks) = IF w.at < Len(w.segs) THEN w.at ELSE Len(w.segs)
(* going back gives what was seen when the place was saved *)
Restored ==
  \A i \in DOMAIN w.saved : Valid(w, i) =>
    LET saved == CHOOSE n \in DOMAIN ops : ops[n] = <<"save">> /\ Cardinality({k \in 1..n : ops[k] = <<"save">>}) = i
    IN Seen(Step(w, <<"back", i>>), names) = seen[saved]
(* variables are numbered in order, and there is none that hasn't been started *)
Numbered == /\ \A m \in Marks(w) : m \in 1..(w.count + 1)
            /\ \A i, j \in DOMAIN w.marks : i < j /\ w.marks[i] # 0 /\ w.marks[j] # 0 => w.marks[i] <= w.marks[j]
(* everything named is there *)
Named == \A v \in Variables(w, names) : v[1] # <<>> /\ \A u \in Variables(w, names) : u[1] = v[1] => u = v
=============================================================================
