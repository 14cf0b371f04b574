----------------------------- MODULE RansacTrace ----------------------------
EXTENDS Ransac, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE k
ToSet(s) == {s[x] : x \in DOMAIN s}
Check(name, p) == IF p THEN TRUE ELSE PrintT(<<"WHY", name>>) /\ FALSE

Search(r) ==
  LET n == Len(r.w)
      w == [m \in 0..(n - 1) |-> r.w[m + 1]]
      H == [h \in 1..Len(r.H) |-> ToSet(r.H[h])]
      E == ToSet(r.evaluated)
      live == 1..Len(r.H)
      o == [ok |-> r.ok = 1, hyp |-> r.hyp, inl |-> ToSet(r.inl), outl |-> ToSet(r.outl)]
  IN IF r.invalid > 0 THEN Check("a pose was computed from an invalid match", r.ok = 0)
     ELSE /\ Check("a hypothesis was evaluated at a pose nobody proposed", r.strange = 0)
          /\ Check("not the best evaluated hypothesis, or not its own matches", Outcome(n, w, H, E, o))
          /\ Check("a match is reported twice", r.ok = 1 => Len(r.inl) + Len(r.outl) = n)
          /\ Check("hypotheses were skipped without a large consensus",
                   Weight(0..(n - 1), w) < Usable \/ Skipping(n, H, live, E))

\* covariance entries are observed in units of 1/10000 mm^2; 0.001 is added on the diagonal
Close(obs, num, den, diag) ==
  LET want == (10000 * (num \div den)) + ((10000 * (num % den)) \div den) + (10 * diag)
      d == obs - want
      tol == 20 + ((IF want < 0 THEN -want ELSE want) \div 100000)
  IN d <= tol /\ -d <= tol
Spread(r) ==
  LET good == SelectSeq(r.vars, LAMBDA v : Len(v) = 3)
      N == Len(good)
      X(a) == [i \in 1..N |-> good[i][a]]
      C(a, b) == Cov(X(a), X(b))
      den == N * (N - 1)
  IN IF r.iterations = 0 THEN Check("an uncertainty was computed from nothing", r.ok = 0)
     ELSE IF N < r.iterations \div 2 \/ N = 0
     THEN Check("an uncertainty was computed although most re-estimations failed", r.ok = 0)
     ELSE IF N = 1 THEN Check("an undefined uncertainty was returned as valid", r.ok = 0 \/ r.finite = 1)
     ELSE /\ Check("the uncertainty was refused", r.ok = 1)
          /\ Check("the uncertainty is not finite and symmetric", r.finite = 1 /\ r.sym = 1)
          /\ Check("the uncertainty is not the spread of the re-estimations",
                   /\ Close(r.cov[1], C(1, 1), den, 1) /\ Close(r.cov[2], C(1, 2), den, 0)
                   /\ Close(r.cov[3], C(1, 3), den, 0) /\ Close(r.cov[4], C(2, 2), den, 1)
                   /\ Close(r.cov[5], C(2, 3), den, 0) /\ Close(r.cov[6], C(3, 3), den, 1))

\* the uncertainty attached to the pose of a search: the re-estimations are of the matches that agree, as many as were asked
Attached(r) ==
  LET its == [i \in 1..r.asked |-> r.vars[1 + ((i - 1) % Len(r.vars))]]
  IN /\ Check("the pose returned is not the one found", r.ok = 1 => r.hyp = 1)
     /\ Check("no perturbed re-estimation took place", r.asked > 0)
     /\ Spread([r EXCEPT !.vars = its] @@ [iterations |-> r.asked])

Init == k = 1
Next == /\ k <= Len(Trace)
        /\ IF Trace[k].op = "ransac" THEN Search(Trace[k]) ELSE IF Trace[k].op = "pose" THEN Attached(Trace[k]) ELSE Spread(Trace[k])
        /\ k' = k + 1
Spec == Init /\ [][Next]_k
Accepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
            \/ PrintT(<<"REJECTED", TLCGet("stats").diameter>>)
=============================================================================
