------------------------------- MODULE Ransac -------------------------------
(* Consensus search for a pose.  Hypotheses are evaluated in parallel; each  *)
(* has a set of agreeing matches.  What the search promises about its        *)
(* outcome is `Outcome`; RansacMC shows that an atomic compare-and-replace    *)
(* of the best hypothesis gives it under every interleaving.                  *)
EXTENDS Integers, FiniteSets, Sequences

\* scores are in hundredths: a usable consensus weighs at least 100
Usable == 100

RECURSIVE Weight(_, _)
Weight(S, w) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN w[x] + Weight(S \ {x}, w)

Better(a, b) == a.s > b.s \/ (a.s = b.s /\ a.n > b.n)

\* ceil(80 % of the matches): above it the search may stop early
StopAbove(count) == (8 * count + 9) \div 10

(* matches 0..n-1 with weights w; H[h] the agreeing matches of hypothesis h;  *)
(* E the evaluated hypotheses; r = [ok, hyp, inl, outl] the outcome.          *)
Score(H, h, w) == [s |-> Weight(H[h], w), n |-> Cardinality(H[h])]
Candidates(H, E, w) == {h \in E : Score(H, h, w).s >= Usable}
Outcome(n, w, H, E, r) ==
  IF Weight(0..(n - 1), w) < Usable \/ Candidates(H, E, w) = {}
  THEN ~r.ok
  ELSE /\ r.ok
       /\ r.hyp \in Candidates(H, E, w)
       /\ \A h \in E : ~Better(Score(H, h, w), Score(H, r.hyp, w))
       /\ r.inl = H[r.hyp]
       /\ r.outl = (0..(n - 1)) \ H[r.hyp]
\* hypotheses may be skipped only after a consensus of more than 80 %
Skipping(n, H, live, E) == live \subseteq E \/ \E h \in E : Cardinality(H[h]) > StopAbove(n)

-----------------------------------------------------------------------------
(* Spread of N positions: N(N-1) times the sample covariance, exactly.        *)
RECURSIVE Sum(_)
Sum(s) == IF s = << >> THEN 0 ELSE Head(s) + Sum(Tail(s))
Cov(xs, ys) == LET N == Len(xs)
               IN N * Sum([i \in 1..N |-> xs[i] * ys[i]]) - Sum(xs) * Sum(ys)
=============================================================================
