-------------------------------- MODULE Rand --------------------------------
(* Reproducible pseudo random numbers as a hash, inside the                    *)
(* specification so that a generated case depends on its number and seed only. *)
EXTENDS Integers, Sequences
\* the k-th number of case n (all intermediate values stay below 2^31)
RV(n, seed, k) ==
  LET h1 == (171 * ((k * 523 + (n % 30000) * 1009 + seed * 7919) % 30269) + ((n \div 29) % 1000)) % 30269
      h2 == (h1 * h1 + 17 * k + (n % 9973)) % 30307
      h3 == (h2 * h2 + h1 + (seed % 1000) * 3) % 30323
  IN (h2 * h3 + h1) % 29989
\* the k-th number picks an element of a sequence / of an interval
PickSeq(r, k, s) == s[1 + (r[k] % Len(s))]
PickInt(r, k, lo, hi) == lo + (r[k] % (hi - lo + 1))
\* the k-th number picks a subset of 1..m, one bit each
PickSub(r, k, m) == {i \in 1..m : (r[k] \div (2 ^ i)) % 2 = 1}
RECURSIVE S2S(_)
S2S(T) == IF T = {} THEN << >> ELSE LET x == CHOOSE y \in T : \A z \in T : y <= z IN <<x>> \o S2S(T \ {x})
=============================================================================
