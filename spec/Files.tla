------------------------------- MODULE Files -------------------------------
(***************************************************************************)
(* How files are sent. The lines of the bundled type table are read from   *)
(* the file in $TYPES, as sequences of bytes.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Tab == 9  Blank == 32  Dot == 46  Hash == 35  Slash == 47

RECURSIVE WordsFrom(_, _, _, _)
(* what's between tabs and blanks *)
WordsFrom(s, i, word, acc) ==
  LET done == IF word = <<>> THEN acc ELSE Append(acc, word) IN
  IF i > Len(s) THEN done
  ELSE IF s[i] \in {Tab, Blank, 13} THEN WordsFrom(s, i + 1, <<>>, done)
  ELSE WordsFrom(s, i + 1, Append(word, s[i]), acc)

Entries(line) ==
  IF line = <<>> \/ Head(line) = Hash THEN {}
  ELSE LET w == WordsFrom(line, 1, <<>>, <<>>) IN {<<w[i], w[1]>> : i \in 2..Len(w)}

Lines == ndJsonDeserialize(IOEnv.TYPES)
(* pairs of an extension and a type, kept in a register so that the lines are read only once *)
Pairs(lines) == UNION {Entries(lines[i].line) : i \in DOMAIN lines}
Grouped(pairs) == [x \in {p[1] : p \in pairs} |-> {p[2] : p \in {r \in pairs : r[1] = x}}]
ASSUME LET pairs == Pairs(Lines) IN TLCSet(7, Grouped(pairs))
Table(d) == TLCGet(7)
Extensions(d) == DOMAIN Table(0)
Listed(ext) == IF ext \in DOMAIN Table(0) THEN Table(0)[ext] ELSE {}

Generic == <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 111, 99, 116, 101, 116, 45, 115, 116, 114, 101, 97, 109>>

(* what follows the last dot in a name, if that isn't the first character *)
Dots(name) == {i \in DOMAIN name : name[i] = Dot}
Extension(name) ==
  IF Dots(name) \in {{}, {1}} THEN <<>>
  ELSE LET last == CHOOSE i \in Dots(name) : \A j \in Dots(name) : j <= i IN <<SubSeq(name, last + 1, Len(name))>>

TypeOf(name) == LET e == Extension(name) IN IF e = <<>> THEN {Generic} ELSE IF Listed(e[1]) = {} THEN {Generic} ELSE Listed(e[1])

---------------------------------------------------------------------------
(* What a path leads to: a "file" or a "link" to one, or something that
   can't be opened as a file. *)
Opens(entry) == entry \in {"file", "link"}
Missing(entry) == entry \in {"missing", "missingdir", "dangling", "empty"}

(* The status after unpacking a Result or Option around the file. *)
Wrapped(wrap, status) == CASE wrap = "ok" -> 200 [] wrap = "err" -> 500 [] OTHER -> status

TheFile == [is |-> "file", d |-> <<>>]
Content(d) == [is |-> "bytes", d |-> d]
NotFound == <<110, 111, 110, 101>>
Recovered == <<114, 101, 99>>

(* How it's sent: as a "path", "pathbuf" or open "file", or with a "mime"
   function that answers with a type or nothing. answer is a sequence. *)
Types(q) ==
  CASE q.how = "file" -> {q.preset}
    [] q.how = "mime" -> IF Extension(q.name) = <<>> \/ q.answer = <<>> THEN {Generic} ELSE {q.answer[1]}
    [] OTHER -> TypeOf(q.name)
Asked(q) == IF q.how = "mime" THEN Extension(q.name) ELSE <<>>

Response(q) ==
  LET status == Wrapped(q.wrap, q.status)
      Intact(s, body) == [status |-> s, types |-> {q.preset}, body |-> Content(body), filtered |-> q.filters]
  IN IF Opens(q.entry) THEN [status |-> status, types |-> Types(q), body |-> TheFile, filtered |-> FALSE, result |-> "ok", asked |-> Asked(q)]
     ELSE LET r == CASE q.after = "drop" -> [r |-> Intact(status, <<>>), result |-> "open"]
                     [] q.after = "recover" -> [r |-> Intact(status, Recovered), result |-> "open"]
                     [] q.after = "ignore" -> [r |-> Intact(status, <<>>), result |-> "open"]
                     [] q.after = "not_found" /\ Missing(q.entry) -> [r |-> Intact(404, NotFound), result |-> "ok"]
                     [] q.after = "not_found" /\ ~Missing(q.entry) -> [r |-> Intact(status, <<>>), result |-> "open"]
                     [] q.after = "send" -> [r |-> Intact(IF Missing(q.entry) THEN 404 ELSE 500, <<>>), result |-> "sent"]
          IN [status |-> r.r.status, types |-> r.r.types, body |-> r.r.body, filtered |-> r.r.filtered,
              result |-> IF q.after = "send" THEN "sent" ELSE r.result, asked |-> Asked(q)]

(* with send, nobody gets to see the result *)
Result(q) == IF q.after = "send" THEN "sent" ELSE Response(q).result

(* The connection breaks after n bytes. What was written until then is the
   beginning of the response, and it's noticed if there was much left. *)
BrokenResults(q, size, n) ==
  IF q.after = "send" THEN {"sent"}
  ELSE IF ~Opens(q.entry) THEN {Result(q)}
  ELSE IF size > n + 200000 THEN {"send"} ELSE {"ok", "send"}
=============================================================================
