------------------------------ MODULE MCText ------------------------------
(* All short histories of a value, where each edit either keeps what is
   known about the value or looks at all of its bytes again, as is done in
   the code. Known and actual validity have to agree. *)
EXTENDS Utf8, FiniteSets, TLC, Json

CONSTANTS Chars, Starts(_), Edits(_), Depth

VARIABLES start, edits, bytes, text

Halves == {<<195>>, <<165>>, <<226>>, <<226, 130>>, <<130>>, <<172>>, <<240, 159>>, <<146, 150>>, <<150>>}
Invalid == {<<255>>, <<192, 128>>, <<237, 160, 128>>, <<244, 144>>, <<224, 128>>, <<97, 195>>, <<165, 97>>}
Texts == {<<>>, <<97>>, <<98, 195, 165>>, <<226, 130, 172>>, <<240, 159, 146, 150>>, <<0>>}
SomePieces(d) == Halves \cup Invalid \cup Texts
FewPieces(d) == {<<130>>, <<195>>, <<165>>, <<226, 130>>, <<172>>, <<255>>, <<97>>, <<>>, <<98, 195, 165>>}

E(op) == [op |-> op]
EditSet(P) ==
  {[op |-> "push_char", c |-> c] : c \in Chars} \cup {[op |-> "push_byte", b |-> p[1]] : p \in {q \in P : Len(q) = 1}}
  \cup {[op |-> "push_str", d |-> p] : p \in {q \in P : Valid(q)}} \cup {[op |-> "push_bytes", d |-> p] : p \in P}
  \cup {[op |-> "buffer", edits |-> <<e>>] : e \in {E("pop"), E("clear"), E("reverse"), [op |-> "truncate", n |-> 1], [op |-> "remove", n |-> 0],
                                                    [op |-> "insert", n |-> 1, b |-> 165], [op |-> "insert", n |-> 1, b |-> 97], [op |-> "set", n |-> 0, b |-> 195]}}
  \cup {[op |-> "buffer", edits |-> <<[op |-> "bytes", d |-> p], e>>] : p \in {<<195>>, <<97>>}, e \in {E("pop"), [op |-> "char", c |-> 229], [op |-> "bytes", d |-> <<165>>]}}
  \cup {[op |-> "buffer", edits |-> <<>>], E("clone"), E("reborrow")}
QuickEdits(d) == EditSet(FewPieces(0))
ThoroughEdits(d) == EditSet(SomePieces(0))

Hows(p) == {"vec", "buffer"} \cup IF Valid(p) THEN {"str", "string"} ELSE {}
S(how, d) == [how |-> how, d |-> d]
SomeStarts(d) == {S(h[1], h[2]) : h \in UNION {Hows(p) \X {p} : p \in SomePieces(0)}} \cup {S("new", <<>>)}

(* what the value is compared with *)
Probes(s) == <<<<>>, <<97>>, <<195, 165>>, <<255>>, s, s \o <<0>>, IF s = <<>> THEN s ELSE Cut(s, Len(s) - 1), Lossy(s)>>

Init == start \in Starts(0) /\ edits = <<>> /\ bytes = start.d /\ text = Valid(start.d)

Keeps(e) == e.op \in {"push_char", "push_str", "clone", "reborrow"} \/ (e.op = "push_bytes" /\ Valid(e.d)) \/ (e.op = "push_byte" /\ Valid(<<e.b>>))

Do == /\ Len(edits) < Depth
      /\ \E e \in Edits(0) :
           /\ edits' = Append(edits, e) /\ bytes' = Edit(bytes, e)
           /\ text' = IF Keeps(e) THEN text ELSE Valid(bytes')
           /\ UNCHANGED start
           /\ PrintT(ToJson([start |-> start, edits |-> edits', first |-> Facts(start.d), after |-> History(start.d, edits', <<>>),
                             compared |-> [i \in DOMAIN Probes(bytes') |-> [with |-> Probes(bytes')[i], order |-> Compare(bytes', Probes(bytes')[i])]]]))
Next == Do
Spec == Init /\ [][Next]_<<start, edits, bytes, text>>

(* what is known without looking is right *)
Classified == text = Valid(bytes)
Concatenated == bytes = Edited(start.d, edits)
(* a lossy conversion is text, and changes nothing that is text already *)
LossyIsText == Valid(Lossy(bytes)) /\ (Valid(bytes) => Lossy(bytes) = bytes) /\ Lossy(Lossy(bytes)) = Lossy(bytes)
Characters == \A c \in Chars : Valid(Encode(c))
Ordered == \A i, j \in 1..8 : LET p == Probes(bytes) IN Compare(p[i], p[j]) = -Compare(p[j], p[i]) /\ (Compare(p[i], p[j]) = 0 <=> p[i] = p[j])
=============================================================================
