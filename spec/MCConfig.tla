------------------------------ MODULE MCConfig ------------------------------
(* All short ways to make and change a host, pairwise compared, and settings
   where any few are set. *)
EXTENDS Config, TLC, Json

CONSTANTS Makes(_), Ports, MaxPorts, MaxSet, Opens

VARIABLES kind, a, b, set

Made(how, ip, port, flow, scope) == [how |-> how, ip |-> ip, port |-> port, flow |-> flow, scope |-> scope, ports |-> <<>>]
Ip4 == {<<0, 0, 0, 0>>, <<127, 0, 0, 1>>, <<255, 1, 20, 3>>}
Ip6 == {<<0, 0, 0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0, 0, 1>>, <<65535, 1, 0, 0, 4660, 0, 0, 15>>, <<0, 0, 0, 0, 0, 65535, 32512, 1>>}
MakesOf(ports) ==
  {Made(h, <<0, 0, 0, 0>>, p, 0, 0) : h \in {"number", "any"}, p \in ports}
  \cup {Made(h, ip, p, 0, 0) : h \in {"pair", "v4", "socket4", "text4"}, ip \in Ip4, p \in ports}
  \cup {Made("text6", ip, p, 0, 0) : ip \in Ip6, p \in ports}
  \cup {Made(h, ip, p, f, s) : h \in {"v6", "socket6"}, ip \in Ip6, p \in ports, f \in {0, 7}, s \in {0, 3}}
QuickMakes(d) == MakesOf({0, 80, 65535})
ThoroughMakes(d) == MakesOf({0, 1, 80, 256, 65535})

(* texts, as addresses *)
Text(s) == [how |-> "parse", text |-> s]
Zero == 48
Texts ==
  {s1 \o <<46>> \o s2 \o <<46>> \o s3 \o <<46>> \o s4 \o e :
     s1 \in {<<49>>, <<48>>, <<50, 53, 53>>, <<50, 53, 54>>, <<48, 49>>, <<>>}, s2 \in {<<48>>, <<57, 57>>}, s3 \in {<<49>>, <<32, 49>>}, s4 \in {<<50>>, <<51, 52, 53>>, <<49, 46, 50>>},
     e \in {<<>>, <<58>>, <<58, 48>>, <<58, 56, 48>>, <<58, 54, 53, 53, 51, 53>>, <<58, 54, 53, 53, 51, 54>>, <<58, 56, 48, 32>>, <<58, 97>>, <<58, 45, 49>>, <<58, 56, 58, 56>>}}
  \cup {<<>>, <<56, 48>>, <<58, 56, 48>>, <<97, 58, 56, 48>>}

NoHost == <<>>
Default == [base |-> "new", host |-> NoHost, server |-> <<>>, ctype |-> <<>>, threads |-> Unset, free |-> Unset, cf |-> 0, rf |-> 0, open |-> 0]
HostsToSet == {Made("number", <<0, 0, 0, 0>>, 8080, 0, 0), Made("v6", <<0, 0, 0, 0, 0, 0, 0, 1>>, 80, 0, 0), [Made("pair", <<127, 0, 0, 1>>, 9, 0, 0) EXCEPT !.ports = <<80>>]}

Init == /\ kind \in {"none"} /\ a = <<>> /\ b = <<>> /\ set = 0

Start ==
  /\ kind = "none"
  /\ \/ /\ kind' = "hosts" /\ a' \in Makes(0) /\ b' = <<>> /\ UNCHANGED set
     \/ /\ kind' = "text" /\ \E s \in Texts : a' = Text(s)
        /\ UNCHANGED <<b, set>>
     \/ /\ kind' = "settings" /\ \E base \in {"new", "default"} : a' = [Default EXCEPT !.base = base]
        /\ UNCHANGED <<b, set>>
Port == /\ kind = "hosts" /\ b = <<>> /\ Len(a.ports) < MaxPorts /\ \E p \in Ports : a' = [a EXCEPT !.ports = Append(@, p)]
        /\ UNCHANGED <<kind, b, set>>
(* compared to a host that is made in any way *)
Compare == /\ kind = "hosts" /\ b = <<>> /\ \E m \in Makes(0) : b' = m
           /\ UNCHANGED <<kind, a, set>>
Set == /\ kind = "settings" /\ set < MaxSet /\ set' = set + 1 /\ UNCHANGED <<kind, b>>
       /\ \/ a.host = <<>> /\ \E h \in HostsToSet : a' = [a EXCEPT !.host = <<h>>]
          \/ a.server = <<>> /\ \E s \in {"", "x", "a server/1.0"} : a' = [a EXCEPT !.server = <<s>>]
          \/ a.ctype = <<>> /\ \E s \in {"text/plain", "text/plain; charset=utf-8", "application/octet-stream", "x/y; a=b; c=d"} : a' = [a EXCEPT !.ctype = <<s>>]
          \/ a.threads = Unset /\ \E n \in {1, 2, 7} : a' = [a EXCEPT !.threads = n]
          \/ a.free = Unset /\ \E n \in {0, 1, 3} : a' = [a EXCEPT !.free = n]
          \/ a.cf = 0 /\ \E n \in 1..2 : a' = [a EXCEPT !.cf = n]
          \/ a.rf = 0 /\ \E n \in 1..2 : a' = [a EXCEPT !.rf = n]
          \/ a.open = 0 /\ \E n \in Opens : a' = [a EXCEPT !.open = n]

Next == Start \/ Port \/ Compare \/ Set
Spec == Init /\ [][Next]_<<kind, a, b, set>>

Vector ==
  CASE kind = "hosts" -> [kind |-> kind, a |-> a, b |-> b, addr |-> Address(a), same |-> Address(a) = Address(b)]
    [] kind = "text" -> [kind |-> kind, text |-> a.text, parsed |-> Parsed(a.text)]
    [] kind = "settings" ->
         [kind |-> kind, c |-> a, host |-> Host(a), server |-> ServerName(a), ctype |-> ContentType(a), threads |-> a.threads,
          free |-> a.free, cf |-> a.cf, rf |-> a.rf,
          (* how many cores there are is known to the implementation *)
          closes |-> a.free # Unset /\ a.free > Limit(a, 0, a.open),
          limit |-> IF a.threads = Unset THEN Unset ELSE Limit(a, 0, a.open)]
Printed == (kind = "hosts" /\ b # <<>>) \/ kind \in {"text", "settings"} => PrintT(ToJson(Vector))

(* changing the port changes the port *)
OnlyThePort == kind = "hosts" => Address(a) = [Base(a) EXCEPT !.port = Address(a).port] /\ (a.ports # <<>> => Address(a).port = a.ports[Len(a.ports)])
(* what isn't set doesn't depend on what is *)
Independent ==
  kind = "settings" => /\ a.host = <<>> => Host(a) = AnyV4(80)
                       /\ a.server = <<>> => ServerName(a) = "rustful"
                       /\ a.threads # Unset => Limit(a, 1, a.open) = Limit(a, 64, a.open)
=============================================================================
