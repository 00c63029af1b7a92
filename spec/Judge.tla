------------------------------- MODULE Judge -------------------------------
(***************************************************************************)
(* Trace validation. The lines of a recorded trace are read from the file  *)
(* in $TRACE. A line that isn't what the specification says is reported    *)
(* with the disagreeing fields, and the validation goes on.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

ToSet(s) == {s[i] : i \in DOMAIN s}

(* checks: a sequence of <<field, agreement>> *)
Bad(checks) == {checks[i][1] : i \in {j \in DOMAIN checks : ~checks[j][2]}}

Report(line, bad, expected) ==
  IF bad = {} THEN TRUE
  ELSE PrintT(ToJson([mismatch |-> line, fields |-> bad, expected |-> expected]))
=============================================================================
