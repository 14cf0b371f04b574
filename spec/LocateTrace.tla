----------------------------- MODULE LocateTrace ----------------------------
EXTENDS Locate, Conf
VARIABLE k
Unique(s) == Cardinality(ToSet(s)) = Len(s)
Found(o) ==
  /\ Check("the pose was not found", o.ok = 1)
  /\ Check("the pose is not where the camera is", o.pe <= 20 /\ o.re <= 20)
  /\ Check("the uncertainty of the pose is not one", o.cov = 1)
  /\ Check("a wrong match is believed", ToSet(o.in) \subseteq Exact(o.ms))
  /\ Check("exact matches were given up", ToSet(o.in) = Exact(o.ms) \/ 5 * Len(o.in) >= 4 * Cardinality(All(o.ms)))
  /\ Check("a pose found from uncertain matches is not more uncertain", o.wider > 1 => o.v2 >= 4 * o.v1 /\ o.v2 > 0)
StepOK(o) ==
  IF o.type = "turn" THEN Check("an orientation is lost in its parameters", o.finite = 1 /\ o.pe <= 1 /\ o.re <= 1)
  ELSE IF o.type = "slope" THEN
    LET c == [n |-> o.n, d |-> o.d] I == << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >> Z == <<0, 0, 0>> IN
    /\ Check("parameters give another pose", o.pos = 1 /\ o.at = Four(c).q)
    /\ Check("the derivative of a pose is wrong", o.jp = I /\ o.jy = <<Z, Z, Z>> /\ o.jx = <<Z, Z, Z, Z>> /\ o.jq = Slope(c) /\ o.off <= 20)
  ELSE IF o.type = "shake" THEN
    LET e == Shaken(o.kind, o.axis, o.c, o.u) most == CHOOSE x \in ToSet(e) : \A y \in ToSet(e) : y <= x IN
    Check("perturbed copies of a match do not have its uncertainty",
          Len(o.sd) = Len(e) /\ \A i \in DOMAIN e : Abs(o.sd[i] - e[i]) <= 30 + (most \div 16) /\ Abs(o.mean[i]) <= 30 + (most \div 10))
  ELSE IF o.type = "handed" THEN
    /\ Check("a feature in the middle of the image is not matched with itself", o.found = 1)
    /\ LET most == CHOOSE x \in ToSet(o.dev) : \A y \in ToSet(o.dev) : y <= x
           second == IF o.kind = "plane" THEN 2 * (((most \div 1000) * most) \div o.z) \* the normal stays of length 1
                     ELSE IF o.kind = "flat" THEN most \div 2       \* the distance is that to a segment, which also moves along itself
                     ELSE 0 IN
       Check("the match of a map feature does not have the uncertainty of the feature",
             Len(o.sd) = Len(o.dev) /\ \A i \in DOMAIN o.sd : Abs(o.sd[i] - o.dev[i]) <= 30 + (o.dev[i] \div 12) + second)
  ELSE /\ Check("a pose was found from too little or from unusable matches", Refused(o.ms) => o.ok = 0)
       /\ (Sure(o.ms) => Found(o))
       /\ Check("a match is in both sets or in none", o.ok = 1 => /\ o.known = 1 /\ Unique(o.in) /\ Unique(o.outl)
                                                               /\ ToSet(o.in) \cap ToSet(o.outl) = {} /\ ToSet(o.in) \cup ToSet(o.outl) = All(o.ms))
Init == k = 1
Next == k <= Len(Trace) /\ StepOK(Trace[k]) /\ k' = k + 1
Spec == Init /\ [][Next]_k
Accepted == AtDiameter
=============================================================================
