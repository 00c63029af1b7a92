-------------------------------- MODULE Body --------------------------------
(***************************************************************************)
(* What a handler, and the filters before it, can read of a request body.  *)
(*                                                                         *)
(* q.framing: "none", "length" or "chunked", with chunks of q.sizes bytes  *)
(* q.content: the bytes of the message body                                *)
(* q.cut:     -1, or the number of bytes of the content before the         *)
(*            connection ends                                              *)
(* q.ctype:   <<>> or <<[top, sub, params]>>, the declared content type,   *)
(*            where params are of [n, v, quoted]                           *)
(***************************************************************************)
EXTENDS Target, Integers, Sequences, FiniteSets

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
WellFormed(q) ==
  /\ q.framing = "none" => q.content = <<>> /\ q.cut = -1
  /\ q.framing = "chunked" => Sum(q.sizes) = Len(q.content) /\ \A i \in DOMAIN q.sizes : q.sizes[i] > 0
  /\ q.framing = "length" => q.cut < Len(q.content)
  /\ q.cut <= Len(q.content)

(* what will be delivered *)
Available(q) == IF q.cut < 0 THEN q.content ELSE SubSeq(q.content, 1, q.cut)
Cut(q) == q.cut >= 0

---------------------------------------------------------------------------
(* The state of a body: what's left of it, and what was seen of its end:
   "" so far, "end" or "error". *)
Fresh(q) == [rest |-> Available(q), end |-> ""]
Least(a, b) == IF a < b THEN a ELSE b
Drop(s, n) == SubSeq(s, n + 1, Len(s))

(* A single read of up to n bytes, that gave `got`: something if there's
   something left, and never more than that. Errors come only where the
   connection ends, and may take the last bytes with them. *)
ReadAllowed(q, s, n, got, end) ==
  CASE end = "more"  -> Len(got) <= n /\ got = SubSeq(s.rest, 1, Len(got)) /\ (got = <<>> => n = 0)
    [] end = "end"   -> n > 0 /\ got = <<>> /\ s.rest = <<>> /\ ~Cut(q)
    [] end = "error" -> n > 0 /\ got = <<>> /\ Cut(q) /\ s.rest = <<>>
    [] OTHER -> FALSE

(* Reading until there are n bytes, or an end. *)
Fill(q, s, n) ==
  LET k == Least(n, Len(s.rest)) IN
  [got |-> SubSeq(s.rest, 1, k), end |-> IF n <= Len(s.rest) THEN "more" ELSE IF Cut(q) THEN "error" ELSE "end"]
All(q, s) == [got |-> s.rest, end |-> IF Cut(q) THEN "error" ELSE "end"]
(* the parameters in what's left of the body *)
Form(q, s) == IF Cut(q) THEN [params |-> {}, end |-> "error"] ELSE [params |-> Params(s.rest), end |-> "end"]

After_(s, got, end) == [rest |-> Drop(s.rest, Len(got)), end |-> IF end \in {"end", "error"} THEN end ELSE s.end]

(* Was the body left in such a way that the next request is what comes next? *)
Drained(q, s) ==
  CASE q.framing = "none" -> TRUE
    [] q.framing = "length" -> s.rest = <<>> /\ ~Cut(q)
    [] q.framing = "chunked" -> s.end = "end"

---------------------------------------------------------------------------
Lower(s) == [i \in DOMAIN s |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]]
MultipartName == <<109, 117, 108, 116, 105, 112, 97, 114, 116>>
FormData == <<102, 111, 114, 109, 45, 100, 97, 116, 97>>
BoundaryName == <<98, 111, 117, 110, 100, 97, 114, 121>>

Boundaries(t) == {i \in DOMAIN t.params : Lower(t.params[i].n) = BoundaryName}
(* Multipart access is offered with a boundary, as <<boundary>>. *)
Offered(q) ==
  IF q.ctype = <<>> THEN <<>>
  ELSE LET t == q.ctype[1] IN
       IF Lower(t.top) = MultipartName /\ Lower(t.sub) = FormData /\ Boundaries(t) # {}
       THEN <<t.params[CHOOSE i \in Boundaries(t) : \A j \in Boundaries(t) : i <= j].v>>
       ELSE <<>>

(* Parts of [name, file, data], where file is <<>> or <<name>>. *)
Dashes == <<45, 45>>
NewLine == <<13, 10>>
Disposition == <<67, 111, 110, 116, 101, 110, 116, 45, 68, 105, 115, 112, 111, 115, 105, 116, 105, 111, 110, 58, 32>> \o FormData \o <<59, 32, 110, 97, 109, 101, 61, 34>>
FileName == <<59, 32, 102, 105, 108, 101, 110, 97, 109, 101, 61, 34>>
Part(p, b) ==
  Dashes \o b \o NewLine \o Disposition \o p.name \o <<34>> \o (IF p.file = <<>> THEN <<>> ELSE FileName \o p.file[1] \o <<34>>)
  \o NewLine \o NewLine \o p.data \o NewLine
RECURSIVE Encode(_, _)
Encode(parts, b) == IF parts = <<>> THEN Dashes \o b \o Dashes \o NewLine ELSE Part(Head(parts), b) \o Encode(Tail(parts), b)
=============================================================================
