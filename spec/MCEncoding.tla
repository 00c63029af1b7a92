----------------------------- MODULE MCEncoding -----------------------------
(***************************************************************************)
(* An encoder of parameters, which may choose among the encodings of each  *)
(* byte, and what it encodes. Decoding gives that back.                    *)
(***************************************************************************)
EXTENDS Target, TLC, Json

CONSTANTS Bytes, Length, Count

VARIABLES plain, text, part, done

(* plain is the parameters so far as a sequence of <<name, value>>, and part is
   where the encoder is: "name" or "value" *)
Reserved(b) == b \in {Amp, Equal, Percent, Plus, Hash, Space} \/ b > 126 \/ b < 33
HexDigit(n, upper) == IF n < 10 THEN 48 + n ELSE IF upper THEN 55 + n ELSE 87 + n
Escape(b, upper) == <<Percent, HexDigit(b \div 16, upper), HexDigit(b % 16, upper)>>
Encodings(b) == {Escape(b, TRUE), Escape(b, FALSE)} \cup (IF b = Space THEN {<<Plus>>} ELSE {}) \cup (IF Reserved(b) THEN {} ELSE {<<b>>})

(* the last value of a name counts *)
Table(ps) == {ps[i] : i \in {i \in DOMAIN ps : \A j \in DOMAIN ps : j > i => ps[j][1] # ps[i][1]}}
Sent == Table(plain)

Size == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE Len(plain[i][1]) + Len(plain[i][2]) + S(i - 1) IN S(Len(plain))

Init == plain = << <<<<>>, <<>>>> >> /\ text = <<>> /\ part = "name" /\ done = FALSE
Put == /\ Size < Length /\ part # "bare"
       /\ \E b \in Bytes : \E e \in Encodings(b) :
            /\ plain' = [plain EXCEPT ![Len(plain)] = IF part = "name" THEN <<Append(@[1], b), @[2]>> ELSE <<@[1], Append(@[2], b)>>]
            /\ text' = text \o e
       /\ UNCHANGED <<part, done>>
Value == part = "name" /\ part' = "value" /\ text' = Append(text, Equal) /\ UNCHANGED <<plain, done>>
(* a name may come without a value, if there is something *)
Ended == part = "value" \/ plain[Len(plain)][1] # <<>>
NextParam == /\ Ended /\ Len(plain) < Count
             /\ plain' = Append(plain, <<<<>>, <<>>>>) /\ text' = Append(text, Amp) /\ part' = "name" /\ UNCHANGED done
Finish == /\ Ended /\ done' = TRUE /\ UNCHANGED <<plain, text, part>>
          /\ PrintT(ToJson([text |-> text, params |-> Sent]))
Next == ~done /\ (Put \/ Value \/ NextParam \/ Finish)
Spec == Init /\ [][Next]_<<plain, text, part, done>>

RoundTrip == Ended => Params(text) = Sent
=============================================================================
