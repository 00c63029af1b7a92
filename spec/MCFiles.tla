------------------------------ MODULE MCFiles ------------------------------
(* Every listed extension, and every way to send and to fail. *)
EXTENDS Files

CONSTANTS Family, Statuses, Sizes, Presets

VARIABLES q, done

Q(name, entry, how, answer, wrap, status, after, filters, preset, size, at, break) ==
  [name |-> name, entry |-> entry, how |-> how, answer |-> answer, wrap |-> wrap, status |-> status, after |-> after, filters |-> filters,
   preset |-> preset, size |-> size, at |-> at, break |-> break]

X == <<120>>
AB == <<97, 47, 98>>
TextPlain == <<116, 101, 120, 116, 47, 112, 108, 97, 105, 110, 59, 32, 99, 104, 97, 114, 115, 101, 116, 61, 117, 116, 102, 45, 56>>
SomePresets == {AB, TextPlain}

Upper(s) == [i \in DOMAIN s |-> IF s[i] \in 97..122 THEN s[i] - 32 ELSE s[i]]
(* names around the extension, some of which have another extension or none *)
Around(e) == {X \o <<Dot>> \o e, <<Dot>> \o e, X \o <<Dot, Dot>> \o e, e, X \o e, X \o <<Dot>> \o e \o <<Dot>>, X \o <<Dot>> \o Upper(e), X \o <<Dot>> \o e \o <<Dot>> \o <<104, 116, 109, 108>>,
              X \o <<Dot>> \o e \o X, X \o <<Dot>> \o X \o e, X \o <<Dot>> \o e \o <<126>>, X \o <<Dot, Blank>> \o e, X \o <<Dot>> \o e \o <<Blank>>, X \o <<Dot>> \o e \o <<255>>}
File(name, how) == Q(name, "file", how, <<>>, "", 200, "drop", FALSE, AB, 3, 0, -1)
Few == {<<104, 116, 109, 108>>, <<112, 110, 103>>, <<99, 115, 115>>, <<115, 117, 98>>, <<119, 109, 122>>, <<51, 103, 112>>}

Typed(d) == {File(X \o <<Dot>> \o e, "path") : e \in Extensions(0)} \cup {File(n, h) : n \in UNION {Around(e) : e \in Few}, h \in {"path", "pathbuf"}}

Html == <<97, 46, 104, 116, 109, 108>>
Unknown == <<97, 46, 120, 121, 122, 122, 121>>
None == <<97>>
Entries_ == {"file", "link", "dir", "dirlink", "missing", "missingdir", "dangling", "notdir", "loop", "toolong", "nul", "empty"}
Hows == {<<"path", <<>>>>, <<"pathbuf", <<>>>>, <<"mime", <<>>>>, <<"mime", <<<<116, 47, 117>>>>>>}
Afters == {"drop", "recover", "not_found", "ignore", "send"}
Sent ==
  {Q(n, e, h[1], h[2], w, s, a, f, p, 5, 0, -1) : n \in {Html}, e \in Entries_, h \in Hows, w \in {""}, s \in Statuses, a \in Afters, f \in BOOLEAN, p \in Presets}
  \cup {Q(n, e, h, <<>>, w, s, a, f, AB, 5, 0, -1) : n \in {Unknown, None}, e \in {"file", "missing", "dir"}, h \in {"path", "pathbuf"}, w \in {"ok", "err", "some"}, s \in Statuses,
                                                    a \in {"drop", "recover", "send"}, f \in BOOLEAN}
  \cup {Q(n, e, "mime", an, "", 200, "drop", FALSE, p, 0, 0, -1) : n \in {Html, Unknown, None, <<97, 46>>, <<46, 97>>}, e \in {"file", "missing"}, an \in {<<>>, <<<<116, 47, 117>>>>}, p \in Presets}
Open == {Q(Html, e, "file", <<>>, "", s, a, f, p, z, at, -1) : e \in {"file", "link", "dir"}, s \in Statuses, a \in Afters, f \in BOOLEAN, p \in Presets, z \in {5}, at \in {0, 1, 5, 9}}
Sized == {Q(Html, "file", h, <<>>, "", 200, "drop", f, AB, z, at, -1) : h \in {"path", "file", "mime"}, f \in BOOLEAN, z \in Sizes, at \in {0, 2}}
Broken == {Q(Html, e, h, <<>>, "", 200, a, FALSE, AB, z, 0, b) : e \in {"file"}, h \in {"path", "file", "mime"}, a \in Afters, z \in {5, 70000, 400000}, b \in {0, 1, 100, 5000, 70100}}

Queries(d) == CASE Family = "types" -> Typed(0) [] Family = "sending" -> Sent \cup Open \cup Sized \cup Broken

Out == PrintT(ToJson([q |-> q, response |-> Response(q), result |-> IF q.break < 0 THEN {Result(q)} ELSE BrokenResults(q, q.size, q.break)]))
Init == q \in Queries(0) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED q /\ Out
Spec == Init /\ [][Next]_<<q, done>>

(* whole or not at all *)
WholeOrNothing == LET r == Response(q) IN (r.body = TheFile) = Opens(q.entry) /\ (r.body # TheFile => r.types = {q.preset})
Bypassed == Opens(q.entry) => ~Response(q).filtered
HandedBack == ~Opens(q.entry) /\ q.after \in {"drop", "recover", "ignore"} => Response(q).status = Wrapped(q.wrap, q.status)
Handled == ~Opens(q.entry) /\ q.after = "send" => Response(q).status = (IF Missing(q.entry) THEN 404 ELSE 500)
HasType == Response(q).types # {}
=============================================================================
