------------------------------- MODULE MCBody -------------------------------
(* Bodies, and every sequence of a few ways to read them. *)
EXTENDS Body, TLC, Json

CONSTANTS Family, MaxOps, Fills

VARIABLES q, state, history

A5 == <<97, 61, 49, 38, 98>>
Evil == <<71, 69, 84, 32, 47, 101, 32, 72, 84, 84, 80, 47, 49, 46, 49, 13, 10, 13, 10>>
LastChunk == <<48, 13, 10, 13, 10>>

RECURSIVE Compositions(_)
Compositions(n) == IF n = 0 THEN {<<>>} ELSE UNION {{<<k>> \o c : c \in Compositions(n - k)} : k \in 1..n}

Q(framing, content, sizes, cut, ctype, parts) == [framing |-> framing, content |-> content, sizes |-> sizes, cut |-> cut, ctype |-> ctype, parts |-> parts]
Plain(framing, content, sizes, cut) == Q(framing, content, sizes, cut, <<>>, <<>>)
Bodies(d) ==
  {Plain("none", <<>>, <<>>, -1)}
  \cup {Plain("length", c, <<>>, cut) : c \in {<<>>, A5, LastChunk, Evil}, cut \in -1..4}
  \cup {Plain("chunked", c, z, cut) : c \in {A5, LastChunk}, z \in Compositions(5), cut \in -1..5}
  \cup {Plain("chunked", Evil, z, -1) : z \in {<<19>>, <<1, 17, 1>>, <<16, 3>>}}
  \cup {Plain("chunked", <<>>, <<>>, cut) : cut \in {-1, 0}}

(* content types *)
P(n, v, quoted) == [n |-> n, v |-> v, quoted |-> quoted]
Upper(s) == [i \in DOMAIN s |-> IF s[i] \in 97..122 THEN s[i] - 32 ELSE s[i]]
Charset == <<99, 104, 97, 114, 115, 101, 116>>
Utf8Name == <<117, 116, 102, 45, 56>>
Values == {<<120>>, <<89, 122>>, Utf8Name, <<45, 45, 87, 101, 98, 75, 105, 116>>, <<113, 43, 46, 95>>}
SomeParams ==
  {P(n, v, FALSE) : n \in {BoundaryName, Upper(BoundaryName)}, v \in Values} \cup {P(BoundaryName, v, TRUE) : v \in Values \cup {<<97, 58, 32, 61, 59, 98>>}}
  \cup {P(Charset, Utf8Name, FALSE), P(<<113>>, <<49>>, FALSE), P(BoundaryName \o <<120>>, <<120>>, FALSE), P(<<120>> \o BoundaryName, <<120>>, FALSE), P(<<120>>, BoundaryName, FALSE)}
ParamLists ==
  {<<>>} \cup {<<p>> : p \in SomeParams}
  \cup {<<p, r>> : p \in {s \in SomeParams : ~s.quoted}, r \in SomeParams}
(* a quoted value is the last one, and a boundary is declared once *)
Fine(ps) == Cardinality({i \in DOMAIN ps : Lower(ps[i].n) = BoundaryName}) <= 1
CTypes(d) ==
  {<<>>} \cup {<<[top |-> t, sub |-> s, params |-> ps]>> :
     t \in {MultipartName, Upper(MultipartName), <<116, 101, 120, 116>>, MultipartName \o <<120>>},
     s \in {FormData, Upper(FormData), <<109, 105, 120, 101, 100>>, FormData \o <<120>>}, ps \in {x \in ParamLists : Fine(x)}}

Datas == {<<>>, <<97>>, <<13, 10>>, <<13>>, <<0, 255, 13, 10, 13, 10, 97>>, <<98, 13>>}
Files == {<<>>, <<<<102, 46, 116>>>>}
Parts1 == {[name |-> n, file |-> f, data |-> d] : n \in {<<110>>}, f \in Files, d \in Datas}
PartLists == {<<>>} \cup {<<p>> : p \in Parts1} \cup {<<p, r>> : p, r \in Parts1}
TheParts == <<[name |-> <<110>>, file |-> <<>>, data |-> <<97>>], [name |-> <<109>>, file |-> <<<<102>>>>, data |-> <<98, 13, 10, 99>>]>>

Typed(ct, parts, framing) ==
  LET o == Offered([ctype |-> ct])
      c == Encode(parts, IF o = <<>> THEN <<120>> ELSE o[1])
  IN Q(framing, c, IF framing = "chunked" THEN <<Len(c)>> ELSE <<>>, -1, ct, parts)
Boundary1(b) == <<[top |-> MultipartName, sub |-> FormData, params |-> <<P(BoundaryName, b, FALSE)>>]>>
Halves(x, k) == [x EXCEPT !.framing = "chunked", !.sizes = <<k, Len(x.content) - k>>]

Queries(d) ==
  CASE Family = "reads" -> {x \in Bodies(0) : WellFormed(x)}
    [] Family = "types" -> {Typed(ct, TheParts, "length") : ct \in CTypes(0)}
    [] Family = "parts" -> {Typed(Boundary1(b), ps, f) : b \in {<<120>>, <<45, 45, 87>>}, ps \in PartLists, f \in {"length", "chunked"}}
                           \cup UNION {LET x == Typed(Boundary1(<<66>>), TheParts, "length") IN {Halves(x, k) : k \in 1..(Len(x.content) - 1)}}

Ops ==
  CASE Family = "reads" -> {[op |-> "fill", n |-> n] : n \in Fills} \cup {[op |-> o, n |-> 0] : o \in {"all", "form", "offer"}}
    [] OTHER -> {[op |-> o, n |-> 0] : o \in {"all", "offer", "multi"}}

Observed(op) ==
  CASE op.op = "fill" -> LET r == Fill(q, state, op.n) IN [op |-> op, got |-> r.got, end |-> r.end, params |-> {}, offered |-> FALSE, entries |-> <<>>]
    [] op.op = "all" -> LET r == All(q, state) IN [op |-> op, got |-> r.got, end |-> r.end, params |-> {}, offered |-> FALSE, entries |-> <<>>]
    [] op.op = "form" -> LET r == Form(q, state) IN [op |-> op, got |-> <<>>, end |-> r.end, params |-> r.params, offered |-> FALSE, entries |-> <<>>]
    [] op.op = "offer" -> [op |-> op, got |-> <<>>, end |-> "more", params |-> {}, offered |-> Offered(q) # <<>>, entries |-> <<>>]
    [] op.op = "multi" -> [op |-> op, got |-> <<>>, end |-> "more", params |-> {}, offered |-> Offered(q) # <<>>, entries |-> IF Offered(q) = <<>> THEN <<>> ELSE q.parts]

(* the form consumes what's left *)
Consumed(op, o) == IF op.op = "form" THEN state.rest ELSE o.got

Multied == \E i \in DOMAIN history : history[i].op.op = "multi" /\ history[i].offered
Enabled(op) ==
  /\ state.end # "error"
  (* the parts are read from the beginning, and leave nothing specific behind *)
  /\ ~Multied
  /\ op.op = "multi" => state.rest = q.content /\ state.end = ""

Init == q \in Queries(0) /\ state = Fresh(q) /\ history = <<>>
Next ==
  /\ Len(history) < MaxOps /\ UNCHANGED q
  /\ \E op \in Ops :
       /\ Enabled(op)
       /\ LET o == Observed(op) IN
          /\ history' = Append(history, o)
          /\ state' = After_(state, Consumed(op, o), o.end)
  /\ IF Len(history') = MaxOps \/ state'.end = "error" \/ (\E i \in DOMAIN history' : history'[i].op.op = "multi" /\ history'[i].offered)
     THEN PrintT(ToJson([q |-> q, history |-> history', drained |-> Drained(q, state') /\ ~(\E i \in DOMAIN history' : history'[i].op.op = "multi" /\ history'[i].offered)])) ELSE TRUE
Spec == Init /\ [][Next]_<<q, state, history>>

(* What was got, one after the other, is the beginning of the content. *)
RECURSIVE GotAll(_)
GotAll(h) == IF h = <<>> THEN <<>> ELSE Head(h).got \o GotAll(Tail(h))
NoForm == ~\E i \in DOMAIN history : history[i].op.op = "form"
InOrder == NoForm => GotAll(history) = SubSeq(q.content, 1, Len(GotAll(history)))
Whole == state.end = "end" => state.rest = <<>> /\ ~Cut(q)
EndsStay == \A i, j \in DOMAIN history : i < j /\ history[i].end = "end" /\ history[j].op.op \in {"fill", "all"} => history[j].got = <<>>
CutIsNoticed == state.end = "end" => q.cut = -1
=============================================================================
