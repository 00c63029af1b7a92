------------------------------- MODULE MCLife -------------------------------
EXTENDS Life, TLC, Json

CONSTANT Instances(_)

VARIABLES inst, todo, s

Op(o) == [op |-> o, n |-> 0, d |-> <<>>, h |-> ""]
OpN(o, n) == [Op(o) EXCEPT !.n = n]
OpD(o, d) == [Op(o) EXCEPT !.d = d]
OpH(h) == [Op("header") EXCEPT !.h = h]

B(st, hdr, act) == [st |-> st, hdr |-> hdr, act |-> act]
W(t) == [t |-> t, p |-> <<>>, s |-> <<>>]
Wrap(p, x) == [t |-> "wrap", p |-> <<p>>, s |-> <<x>>]
Put(p) == [t |-> "put", p |-> p, s |-> <<>>]
F(b, ws, e) == [begin |-> b, writes |-> ws, end |-> e]
None == NextAct(FALSE, <<>>)
Some(d) == NextAct(TRUE, d)

x == <<120>>  xy == <<120, 121>>  xyz == <<120, 121, 122>>

(* Every kind of begin, write and end, with one filter *)
Begins(d) == {B(0, "", None), B(0, "", Some(<<66>>)), B(0, "", Some(<<>>)), B(203, "f", Some(<<66, 67>>)), B(204, "-", None), B(404, "", SilentAct),
              B(501, "g", AbortAct), B(501, "", PanicAct)}
WriteSets(d) == {<<W("id")>>, <<Wrap(40, 41)>>, <<W("twice")>>, <<W("drop")>>, <<Put(<<80>>)>>, <<W("silent")>>, <<W("abort")>>, <<W("panic")>>,
                 <<W("id"), W("abort")>>, <<W("id"), W("silent"), Wrap(60, 62)>>, <<W("id"), W("id"), W("panic")>>}
Ends(d) == {None, Some(<<69>>), Some(<<>>), SilentAct, AbortAct, PanicAct}
All1(d) == {<<F(b, ws, e)>> : b \in Begins(d), ws \in WriteSets(d), e \in Ends(d)}

(* Chains of a few interesting ones; g gives them an identity *)
Kinds(g) ==
  {F(B(0, "", Some(<<97 + g>>)), <<Wrap(40 + 20 * g, 41 + 20 * g)>>, Some(<<65 + g>>)),
   F(B(200 + g, "f", None), <<W("id")>>, None),
   F(B(0, "", SilentAct), <<Wrap(48 + g, 49 + g)>>, Some(<<65 + g>>)),
   F(B(0, "-", Some(<<97 + g>>)), <<W("silent"), W("id")>>, SilentAct),
   F(B(0, "", Some(<<97 + g>>)), <<W("id"), W("drop"), W("twice")>>, Some(<<65 + g, 66 + g>>)),
   F(B(0, "", Some(<<97 + g>>)), <<W("id"), W("id"), W("abort")>>, Some(<<65 + g>>)),
   F(B(0, "", AbortAct), <<W("id")>>, Some(<<65 + g>>)),
   F(B(0, "", None), <<Put(<<48 + g>>)>>, AbortAct),
   F(B(0, "", Some(<<97 + g>>)), <<W("id"), W("id"), W("panic")>>, Some(<<65 + g>>)),
   F(B(0, "", Some(<<97 + g>>)), <<W("id")>>, PanicAct)}
Kinds3(g) ==
  {F(B(0, "", Some(<<97 + g>>)), <<Wrap(40 + 20 * g, 41 + 20 * g)>>, Some(<<65 + g>>)),
   F(B(0, "", SilentAct), <<W("id"), Wrap(48 + g, 49 + g)>>, SilentAct),
   F(B(200 + g, "f", Some(<<97 + g>>)), <<W("id"), W("silent"), W("twice")>>, None),
   F(B(0, "", None), <<W("id"), W("id"), W("abort")>>, Some(<<65 + g>>)),
   F(B(0, "", Some(<<97 + g>>)), <<W("drop"), Put(<<48 + g>>)>>, AbortAct)}
All2(d) == {<<f, g>> : f \in Kinds(0), g \in Kinds(1)}
All3(d) == {<<f, g, h>> : f \in Kinds3(0), g \in Kinds3(1), h \in Kinds3(2)}
All4(d) == {<<e, f, g, h>> : e \in Kinds3(0), f \in Kinds3(1), g \in Kinds3(2), h \in Kinds3(3)}

(* Programs *)
Short(d) == {<<OpD("send", xy)>>, <<Op("drop")>>, <<OpN("length", 3), OpD("send", <<>>)>>,
             <<Op("chunked"), OpD("send", xy), Op("end")>>, <<Op("chunked"), OpD("write", x), OpD("send", xyz), Op("drop")>>,
             <<Op("chunked"), Op("end")>>, <<Op("chunked"), Op("flush"), OpD("write_all", x), Op("end")>>,
             <<OpN("status", 404), OpH("h"), OpN("length", 1), Op("chunked"), OpD("send", x), OpD("send", <<>>), OpD("send", xy), Op("drop")>>,
             <<OpN("raw", 2), OpD("send", xy), Op("end")>>, <<Op("panic")>>, <<Op("chunked"), OpD("send", x), Op("panic")>>}

RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(S, n) == IF n = 0 THEN {<<>>} ELSE LET r == SeqsUpTo(S, n - 1) IN r \cup {Append(q, e) : q \in {q \in r : Len(q) = n - 1}, e \in S}

Sends(d) == {OpD("quiet", x), OpD("send", <<>>), OpD("send", xy), OpD("write", xyz), OpD("write", <<>>), OpD("write_all", x), Op("flush")}
Pre(d) == {<<>>, <<OpN("status", 404)>>, <<OpN("status", 204)>>, <<OpH("h")>>, <<OpN("length", 3)>>, <<OpN("length", 0), OpN("status", 500)>>,
           <<OpN("status", 404), OpN("status", 201), OpH("h"), OpH("i")>>, <<OpH("h"), OpH("-"), OpN("status", 304)>>}
Fin(n) == {<<OpD("quiet", xy)>>, <<OpD("send", <<>>)>>, <<OpD("send", xy)>>, <<Op("drop")>>, <<Op("panic")>>}
          \cup {<<Op("chunked")>> \o m \o <<e>> : m \in SeqsUpTo(Sends(0), n), e \in {Op("end"), Op("drop"), Op("panic")}}
          \cup {<<OpN("raw", k)>> \o m \o <<e>> : k \in {0, 2, 5}, m \in SeqsUpTo(Sends(0), n), e \in {Op("end"), Op("drop"), Op("panic")}}
Long(n) == {p \o f : p \in Pre(0), f \in Fin(n)}

Few(d) == {<<>>,
           <<F(B(0, "", Some(<<66>>)), <<Wrap(40, 41)>>, Some(<<69>>))>>,
           <<F(B(204, "f", Some(<<>>)), <<W("id"), W("drop"), W("twice")>>, None), F(B(0, "-", None), <<Wrap(40, 41), W("silent")>>, SilentAct)>>,
           <<F(B(203, "", Some(<<66>>)), <<W("id"), W("id"), W("abort"), W("id")>>, Some(<<69>>))>>}
Few2(d) == Few(d) \cup {<<F(B(0, "", AbortAct), <<W("id")>>, None)>>, <<F(B(0, "", None), <<W("id"), W("id"), W("panic")>>, PanicAct)>>}

I(fs, p) == [filters |-> fs, prog |-> p]
QuickInstances(d) == {I(fs, p) : fs \in All1(d) \cup All2(d) \cup All3(d), p \in Short(d)} \cup {I(fs, p) : fs \in Few(d), p \in Long(1)}
                     \cup {I(fs, p) : fs \in Few2(d), p \in Fin(2)}
ThoroughInstances(d) == {I(fs, p) : fs \in All1(d) \cup All2(d) \cup All3(d) \cup All4(d), p \in Short(d)} \cup {I(fs, p) : fs \in Few(d), p \in Long(2)}
                     \cup {I(fs, p) : fs \in Few2(d), p \in Fin(3)}

Init == inst \in Instances(0) /\ todo = inst.prog /\ s = Start(inst.filters)
Next ==
  /\ todo # <<>> /\ s.phase # "done"
  /\ s' = Step(inst.filters, s, Head(todo))
  /\ todo' = Tail(todo)
  /\ UNCHANGED inst
  /\ IF s'.phase # "done" THEN TRUE
     ELSE PrintT(ToJson([filters |-> inst.filters, prog |-> inst.prog, seen |-> Seen(s')]))
Spec == Init /\ [][Next]_<<inst, todo, s>>

(***************************************************************************)
Done == s.phase = "done"

(* Once, and never undone *)
OneHead == [][s.head.sent => s'.head = s.head]_<<inst, todo, s>>
BodyGrows == [][s.head.sent => SubSeq(s'.body, 1, Len(s.body)) = s.body]_<<inst, todo, s>>
Answered == Done => s.head.sent

(* R14: whole unless it crashed, or if less than declared was sent *)
Framed == Done => s.whole \/ s.crashed \/ \E i \in DOMAIN inst.prog : inst.prog[i].op = "raw"

(* R16 *)
(* nothing can be done about what was complete before *)
CrashIsNoSuccess == (s.crashed /\ s.whole) => \E i \in DOMAIN inst.prog : inst.prog[i].op = "raw" \/ s.writer # "ok"

(* R13 *)
AbortIsReported ==
  \A i \in DOMAIN s.results : s.results[i].res = "filter" => s.results[i].errs # {} /\ s.aborted
NoAbortNoError == ~s.aborted => \A i \in DOMAIN s.results : s.results[i].res # "filter"

(* R12: sent at once or in pieces *)
SameBody(fs, d) ==
  LET sized == Run(fs, <<OpD("send", d)>>)
      chunked == Run(fs, <<Op("chunked"), OpD("send", d), Op("end")>>)
      dropped == Run(fs, <<Op("chunked"), OpD("write_all", d), Op("drop")>>)
      see(r) == <<r.head, r.body, r.c.calls>>
  IN (~sized.aborted /\ ~sized.crashed /\ ~Bodyless(sized.head.status)) => see(sized) = see(chunked) /\ see(sized) = see(dropped)
SizedIsChunked == (todo = inst.prog) => \A d \in {<<>>, xy} : SameBody(inst.filters, d)

(* R12: pieces are filtered independently, if the filters don't count *)
Memoryless == \A i \in DOMAIN inst.filters : Len(inst.filters[i].writes) = 1
SplitIsConcatenation ==
  (todo = inst.prog /\ Memoryless) =>
     LET fs == inst.filters
         two == Run(fs, <<Op("chunked"), OpD("send", x), OpD("send", xyz), Op("end")>>)
         first == Run(fs, <<Op("chunked"), OpD("send", x), Op("end")>>)
         second == Run(fs, <<Op("chunked"), OpD("send", xyz), Op("end")>>)
         none == Run(fs, <<Op("chunked"), Op("end")>>)
     IN (~two.aborted /\ ~two.crashed) => Len(two.body) + Len(none.body) = Len(first.body) + Len(second.body)

(* R11: without filters that stop anything, all of the content is there *)
Wraps == \A i \in DOMAIN inst.filters : inst.filters[i].begin.act.t = "next" /\ inst.filters[i].end.t = "next" /\ inst.filters[i].writes[1].t = "wrap" /\ Memoryless
RECURSIVE Wrapped(_, _, _)
Wrapped(fs, i, d) == IF i > Len(fs) THEN d ELSE Wrapped(fs, i + 1, fs[i].writes[1].p \o d \o fs[i].writes[1].s)
RECURSIVE Around(_, _, _)
Around(fs, i, end) ==
  IF i > Len(fs) THEN <<>>
  ELSE LET a == IF end THEN fs[i].end ELSE fs[i].begin.act
       IN (IF a.some THEN Wrapped(fs, i + 1, a.d) ELSE <<>>) \o Around(fs, i + 1, end)
ContentInPlace ==
  (todo = inst.prog /\ Wraps) =>
     LET fs == inst.filters
     IN ~Bodyless(Run(fs, <<OpD("send", xy)>>).head.status) =>
        Run(fs, <<OpD("send", xy)>>).body = Around(fs, 1, FALSE) \o Wrapped(fs, 1, xy) \o Around(fs, 1, TRUE)
=============================================================================
