------------------------------ MODULE MCTarget ------------------------------
(* All small targets, grown one token at a time. *)
EXTENDS Target, TLC, Json

CONSTANTS Tokens, Length, FewTokens, FewLength, Forms

VARIABLES form, rest, n

T(form_, scheme, name, port, rest_) == [form |-> form_, scheme |-> scheme, name |-> name, port |-> port, rest |-> rest_]

QuickTokens == {<<47>>, <<63>>, <<35>>, <<38>>, <<61>>, <<43>>, <<37>>, <<97>>, <<50, 53>>, <<37, 50, 66>>, <<37, 50, 54>>, <<37, 50, 51>>, <<37, 51, 102>>, <<37, 50, 53>>,
           <<37, 70, 70>>, <<37, 67, 51>>, <<37, 50, 102>>, <<37, 51, 68>>, <<37, 50, 48>>, <<37, 52>>, <<42>>, <<195, 165>>}
QuickFew == {<<47>>, <<63>>, <<35>>, <<38>>, <<61>>, <<43>>, <<97>>, <<37, 50, 66>>}
F(f, scheme, name, port) == [f |-> f, scheme |-> scheme, name |-> name, port |-> port]
QuickForms == {F("origin", "", "", -1), F("absolute", "http", "example.com", -1)}
AllForms == QuickForms \cup {F("absolute", "http", "h", 80), F("absolute", "http", "10.0.0.1", 8080), F("absolute", "https", "a.b", 443), F("absolute", "https", "a.b", 80),
                           F("absolute", "http", "[::1]", -1), F("absolute", "http", "[::1]", 8080)}

Special == {T("asterisk", "", "", -1, <<42>>), T("authority", "", "", -1, <<104>>), T("authority", "", "", -1, <<104, 58, 56, 48>>),
            T("authority", "", "", -1, <<101, 120, 46, 111, 114, 103, 58, 52, 52, 51>>)}

Target == T(form.f, form.scheme, form.name, form.port, rest)
Complete == form.f # "special"

Out(t) == PrintT(ToJson([target |-> t, decoded |-> Decoded(t)]))

Init == \/ /\ form \in Forms /\ n = 0
           /\ rest \in IF form.f = "origin" THEN {<<47>>} ELSE {<<>>, <<47>>, <<63>>, <<35>>}
           /\ Out(Target)
        \/ /\ form = F("special", "", "", -1) /\ n = 0 /\ rest = <<>> /\ \A t \in Special : Out(t)
Next == /\ Complete /\ rest # <<>> \* the rest can't run together with the name
        /\ \E x \in Tokens :
             /\ n < Length \/ (n < FewLength /\ x \in FewTokens /\ (\A i \in DOMAIN rest : <<rest[i]>> \in FewTokens))
             /\ rest' = rest \o x
        /\ n' = n + 1 /\ UNCHANGED form
        /\ Out([Target EXCEPT !.rest = rest'])
Spec == Init /\ [][Next]_<<form, rest, n>>

P == Parts(rest)
(* the forms agree by construction, and nothing is taken from the wrong part *)
PathIsBefore == Complete => Len(P.path) <= Len(rest) + 1
FragmentIsLast == Complete => (P.fragment # <<>>) = Has(rest, Hash)
NoFragmentInQuery == Complete => P.query = Parts(Before(rest, Hash)).query
NoQueryWithoutMark == (Complete /\ ~Has(rest, Question)) => P.query = {}
(* what's text is seen as it is, and what's close to it is always text *)
ViewsAgree == Complete => LET v == Views(P.path, TRUE) IN
                          /\ v.text # <<>> => v.text = v.lossy /\ v.text[1] = P.path
                          /\ U!Valid(v.lossy[1]) /\ v.shown = v.lossy[1] /\ U!Lossy(v.lossy[1]) = v.lossy[1]
OneValuePerName == \A p, q \in P.query : p[1] = q[1] => p = q
=============================================================================
