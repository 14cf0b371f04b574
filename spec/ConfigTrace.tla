----------------------------- MODULE ConfigTrace ----------------------------
EXTENDS Config, Conf
VARIABLE k
StepOK(e, g) ==
  LET c == Loaded(e) IN
  /\ Check("a configuration is used or refused wrongly", g.ok = (IF Answer(e) THEN 1 ELSE 0) /\ g.valid = (IF Valid(c) THEN 1 ELSE 0))
  /\ Check("the camera parameters are not those configured", Valid(c) => g.one = c.one /\ g.two = c.two)
  /\ Check("the offset between the cameras is not the one configured", Valid(c) => g.t = c.t /\ g.rot = Turn3(c.r) /\ g.rigid = 1)
Judge(o) == \A i \in DOMAIN o.ops : StepOK(o.ops[i], o.got[i])
Init == k = 1
Next == k <= Len(Trace) /\ Judge(Trace[k]) /\ k' = k + 1
Spec == Init /\ [][Next]_k
Accepted == AtDiameter
=============================================================================
