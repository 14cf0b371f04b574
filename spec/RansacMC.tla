------------------------------ MODULE RansacMC ------------------------------
(* The parallel search as a transition system: every worker evaluates its    *)
(* hypothesis, then replaces the shared best under a lock, comparing inside   *)
(* the critical section (Atomic) or before it (the classic lost update).      *)
EXTENDS Ransac, TLC

CONSTANTS Workers, Matches, Atomic

VARIABLES H, w, pc, seenBest, best, stop, lock
vars == <<H, w, pc, seenBest, best, stop, lock>>

N == Cardinality(Matches)
None == [s |-> Usable, n |-> 0, h |-> 0]

Init == /\ H \in [Workers -> SUBSET Matches]
        /\ w \in {[m \in Matches |-> 100], [m \in Matches |-> IF m = 0 THEN 200 ELSE 100]}
        /\ pc = [x \in Workers |-> "start"]
        /\ seenBest = [x \in Workers |-> None] /\ best = None /\ stop = FALSE /\ lock = 0

Mine(x) == [s |-> Score(H, x, w).s, n |-> Score(H, x, w).n, h |-> x]
Wins(x, b) == Mine(x).s > b.s \/ (Mine(x).s = b.s /\ b.n < Mine(x).n)

Start(x) == /\ pc[x] = "start"
            /\ pc' = [pc EXCEPT ![x] = IF stop THEN "skipped" ELSE "eval"]
            /\ UNCHANGED <<H, w, seenBest, best, stop, lock>>
Eval(x) == /\ pc[x] = "eval"
           /\ pc' = [pc EXCEPT ![x] = IF Mine(x).s < Usable THEN "done" ELSE IF Atomic THEN "lock" ELSE "read"]
           /\ UNCHANGED <<H, w, seenBest, best, stop, lock>>
Read(x) == /\ pc[x] = "read" /\ seenBest' = [seenBest EXCEPT ![x] = best]
           /\ pc' = [pc EXCEPT ![x] = IF Wins(x, best) THEN "lock" ELSE "check"]
           /\ UNCHANGED <<H, w, best, stop, lock>>
Enter(x) == /\ pc[x] = "lock" /\ lock = 0 /\ lock' = x
            /\ pc' = [pc EXCEPT ![x] = "crit"] /\ UNCHANGED <<H, w, seenBest, best, stop>>
Crit(x) == /\ pc[x] = "crit"
           /\ best' = IF ~Atomic \/ Wins(x, best) THEN Mine(x) ELSE best
           /\ lock' = 0 /\ pc' = [pc EXCEPT ![x] = "check"] /\ UNCHANGED <<H, w, seenBest, stop>>
StopNow(x) == /\ pc[x] = "check" /\ stop' = (stop \/ best.n > StopAbove(N))
              /\ pc' = [pc EXCEPT ![x] = "done"] /\ UNCHANGED <<H, w, seenBest, best, lock>>
Next == \E x \in Workers : Start(x) \/ Eval(x) \/ Read(x) \/ Enter(x) \/ Crit(x) \/ StopNow(x)
Spec == Init /\ [][Next]_vars

AllDone == \A x \in Workers : pc[x] \in {"done", "skipped"}
Promise == AllDone =>
  /\ Outcome(N, w, H, {x \in Workers : pc[x] = "done"},
             [ok |-> best.h # 0, hyp |-> best.h, inl |-> IF best.h = 0 THEN {} ELSE H[best.h],
              outl |-> IF best.h = 0 THEN {} ELSE Matches \ H[best.h]])
  /\ Skipping(N, H, Workers, {x \in Workers : pc[x] = "done"})
NeverWorse == [][~Better(best, best') \/ best.h = 0]_vars
=============================================================================
