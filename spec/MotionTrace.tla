----------------------------- MODULE MotionTrace ----------------------------
EXTENDS Motion, Frames, Conf
VARIABLE k
\* follow the operations of a case from the state s of the model
RECURSIVE Follow(_, _, _)
Follow(o, i, s) ==
  IF i > Len(o.ops) THEN TRUE
  ELSE LET e == o.ops[i] g == o.got[i] IN
    CASE e.op = "reset" -> Follow(o, i + 1, Fresh)
      [] e.op = "start" -> Follow(o, i + 1, At(e.p, e.a))
      [] e.op = "predict" -> LET t == TLCEval(After(s, e.p, e.a)) IN
           /\ Check("predicted position is wrong", g.pos = NextPosition(t))
           /\ Check("predicted orientation is wrong", g.turn = NextTurn(t) /\ g.axis = 1)
           /\ Check("predicted orientation is not a rotation", g.unit = 1)
           /\ Check("uncertainty of the prediction is wrong", g.more = Added(s, e.inc = 1) /\ g.rest = 1)
           /\ Follow(o, i + 1, t)
MotionOK(o) == Follow(o, 1, Fresh)
\* quaternion product
QMul(p, q) == << p[1]*q[1] - p[2]*q[2] - p[3]*q[3] - p[4]*q[4], p[1]*q[2] + p[2]*q[1] + p[3]*q[4] - p[4]*q[3],
                 p[1]*q[3] - p[2]*q[4] + p[3]*q[1] + p[4]*q[2], p[1]*q[4] + p[2]*q[3] - p[3]*q[2] + p[4]*q[1] >>
PoseOK(o) ==
  /\ Check("a pose is not where it was set", o.pos = o.t /\ o.rot = M(o.q) /\ o.unit = 1)
  /\ Check("a pose is not moved by what it is updated with", o.pos2 = Add(o.t, o.t2) /\ o.rot2 = MM(M(o.q), M(o.q2)))
  /\ Check("distance between poses is wrong", o.perr * o.perr = o.s * o.s * Dot(o.d, o.d))
  /\ Check("angle between poses is wrong", o.rerr = o.a)
  /\ Check("uncertainty of a pose is wrong", o.cov = o.C /\ o.pcov = <<o.C[1], o.C[2], o.C[3]>> /\ o.none = 1)
  /\ Check("inexact result", o.off <= 20)
AnglesOK(o) ==
  /\ Check("angles are not kept", o.back = o.ypr)
  /\ Check("a rotation by one angle is not about its axis", o.x = 1 /\ o.y = 1 /\ o.z = 1)
  /\ Check("composition of angles is wrong", o.comp = 1)
  /\ Check("inexact result", o.off <= 20)
Judge(o) == CASE o.type = "motion" -> MotionOK(o) [] o.type = "pose" -> PoseOK(o) [] o.type = "angles" -> AnglesOK(o)
Init == k = 1
Next == k <= Len(Trace) /\ Judge(Trace[k]) /\ k' = k + 1
Spec == Init /\ [][Next]_k
Accepted == AtDiameter
=============================================================================
