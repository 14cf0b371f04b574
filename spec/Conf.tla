-------------------------------- MODULE Conf --------------------------------
(* Shared by the trace specifications: a recorded execution is accepted when  *)
(* every record can be taken as a step.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
ToSet(s) == {s[x] : x \in DOMAIN s}
Check(name, p) == IF p THEN TRUE ELSE PrintT(<<"WHY", name>>) /\ FALSE
AtDiameter == \/ TLCGet("stats").diameter - 1 = Len(Trace)
              \/ PrintT(<<"REJECTED", TLCGet("stats").diameter>>)
Abs(x) == IF x < 0 THEN -x ELSE x
Sq(x) == x * x
=============================================================================
