---------------------------- MODULE FeatureMapSim ---------------------------
(* Random long behaviours of FeatureMap with a rich environment: hidden and  *)
(* moving features, a wider second search, several detections per feature,   *)
(* failing updates, constructors and promotions, invalid covariances,        *)
(* deactivation.  Run with TLC -simulate; every behaviour is written out as  *)
(* a script for the real code.                                               *)
EXTENDS FeatureMap, TLC, Json, CSV, IOUtils, Randomization, SequencesExt

CONSTANTS MaxId, MaxDet, Len0,
          Style   \* 0: anything; 1: crowds (many detections, none contested); > 1: long lives, seen and missed in runs of that many steps

VARIABLES fm, next, n, used, phase, ops, stop
vars == <<fm, next, n, used, phase, ops, stop>>

S2S(T) == SetToSortSeq(T, <)
RECURSIVE P2S(_)
P2S(T) == IF T = {} THEN << >> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o P2S(T \ {x})

AllIds == 1..MaxId
R(S) == RandomElement(S)
\* a random subset of S in which each element is present with probability p/10
Some(S, p) == {x \in S : R(1..10) <= p}
Few(S) == {x \in S : R(1..40) = 1}
Cands(k, p) == IF Style = 1 THEN [i \in AllIds |-> IF i <= k /\ R(1..10) <= p - 2 THEN {i - 1} ELSE {}]
  ELSE [i \in AllIds |-> IF R(1..10) <= p
                                 THEN LET m == R(1..10) IN IF k = 0 THEN {} ELSE {IF m <= 7 THEN i % k ELSE R(0..(k-1))} \cup (IF m > 8 THEN {R(0..(k-1))} ELSE {})
                                 ELSE {}]
CS(c) == [i \in AllIds |-> S2S(c[i])]

Init == fm = EmptyMap /\ next = 1 /\ n = 0 /\ used = {} /\ phase = "idle" /\ ops = << [op |-> "new"] >> /\ stop = FALSE

Log(op) == ops' = Append(ops, op)
Steps == Len(ops)

MatchWith(kk, hid, mov, c, w, min) ==
    LET env == [visible |-> AllIds \ hid, moving |-> mov, cand |-> Restrict(c, Ids(fm)), wide |-> Restrict(w, Ids(fm)), min |-> min]
        r == CHOOSE x \in Match(fm, env) : TRUE
    IN /\ fm' = r.map /\ n' = kk /\ used' = {} /\ phase' = "matched"
       /\ Log([op |-> "match", n |-> kk, min |-> min, visible |-> S2S(AllIds \ hid), moving |-> S2S(mov), cand |-> CS(c), wide |-> CS(w)])
       /\ UNCHANGED next
Odds == IF Style > 1 /\ (Steps \div Style) % 2 = 1 THEN 1 ELSE 9
Size == IF Style = 1 THEN R({MaxDet, MaxDet - 7}) ELSE R({0} \cup (2..MaxDet) \cup {IF R(1..3) = 1 THEN 1 ELSE MaxDet})
DoMatch == /\ phase = "idle"
           /\ \E kk \in {Size} : \E hid \in {Few(AllIds)}, mov \in {Few(AllIds)}, c \in {Cands(kk, Odds)}, w \in {Cands(kk, Odds)},
                 min \in {R(0..2)} : MatchWith(kk, hid, mov, c, w, min)
DoOut == /\ phase = "matched" /\ R(1..3) = 1
         /\ \E P \in {{<<i, d>> \in (Ids(fm) \X (0..(n-1))) : (i \in DOMAIN fm.local /\ d \in fm.local[i].m) \/ (i \in DOMAIN fm.staged /\ d \in fm.staged[i].m)}} :
            \E Q \in {Some(P, 4)}, F \in {Some(P, 2)} :
              /\ fm' = Unmatch(fm, Q)
              /\ Log([op |-> "outliers", pairs |-> P2S(Q), foreign |-> P2S(F)])
         /\ phase' = "culled" /\ UNCHANGED <<next, n, used>>
DoUpd == /\ phase \in {"matched", "culled"}
         /\ \E bad \in {IF Style = 1 THEN {} ELSE Few(AllIds \X (0..MaxDet))}, badids \in {Few(AllIds)}, bp \in {Some(AllIds, 1)}, mov \in {Some(AllIds, 1)} :
             LET okp == IF Style = 1 THEN (AllIds \ badids) \X (0..MaxDet) ELSE {<<i, d>> \in (AllIds \X (0..MaxDet)) : i \notin badids /\ <<i, d>> \notin bad}
                 r == Update(fm, [ok |-> okp, badpromo |-> bp])
             IN /\ fm' = r.map /\ used' = r.used
                /\ Log([op |-> "update", badcov |-> 0, moving |-> S2S(mov), badpromo |-> S2S(bp), badids |-> S2S(badids), bad |-> P2S(bad)])
         /\ phase' = "updated" /\ UNCHANGED <<next, n>>
DoBadUpd == /\ phase \in {"matched", "culled"} /\ R(1..12) = 1
            /\ Log([op |-> "update", badcov |-> 1, moving |-> << >>, badpromo |-> << >>, badids |-> << >>, bad |-> << >>])
            /\ UNCHANGED <<fm, next, n, used, phase>>
DoNo == /\ phase \in {"matched", "culled"} /\ R(1..5) = 1
        /\ \E mov \in {Some(AllIds, 1)} : Log([op |-> "notrack", moving |-> S2S(mov)])
        /\ fm' = NoTracking(fm).map /\ used' = {}
        /\ phase' = R({"lost", "idle"}) /\ UNCHANGED <<next, n>>
DoStage == /\ phase \in {"updated", "lost", "upgraded"}
           /\ \E add \in {Some(0..(n-1), 8)}, bc \in {Some(0..(n-1), 1)} :
               LET T == ToStage([n |-> n, addable |-> add, badctor |-> bc], IF phase = "lost" THEN {} ELSE used)
                   ids == [d \in T |-> next + Cardinality({e \in ToStage([n |-> n, addable |-> add, badctor |-> {}], IF phase = "lost" THEN {} ELSE used) : e < d})]
               IN /\ next + n <= MaxId
                  /\ fm' = Stage(fm, ids, 0)
                  /\ next' = next + Cardinality(ToStage([n |-> n, addable |-> add, badctor |-> {}], IF phase = "lost" THEN {} ELSE used))
                  /\ Log([op |-> "stage", badcov |-> 0, all |-> IF phase = "lost" THEN 1 ELSE 0, addable |-> S2S(add), badctor |-> S2S(bc)])
           /\ phase' = "idle" /\ used' = {} /\ UNCHANGED n
DoSkip == /\ phase \in {"updated", "lost", "upgraded"} /\ next + n > MaxId
          /\ Log([op |-> "stage", badcov |-> 0, all |-> 0, addable |-> << >>, badctor |-> << >>])
          /\ phase' = "idle" /\ used' = {} /\ UNCHANGED <<fm, next, n>>
DoBadStage == /\ phase \in {"updated"} /\ R(1..12) = 1
              /\ Log([op |-> "stage", badcov |-> 1, all |-> R(0..1), addable |-> S2S(0..(n-1)), badctor |-> << >>])
              /\ UNCHANGED <<fm, next, n, used, phase>>
DoUp == /\ phase = "updated" /\ R(1..3) = 1 /\ (Style < 2 \/ R(1..30) = 1)
        /\ \E rd \in {Some(AllIds, 2)}, nl \in {Some(AllIds, 1)} :
            /\ fm' = Upgrade(fm, rd \ nl).map
            /\ Log([op |-> "upgrade", ready |-> S2S(rd), null |-> S2S(nl)])
        /\ phase' = "upgraded" /\ UNCHANGED <<next, n, used>>
DoAddUp == /\ phase = "idle" /\ R(1..5) = 1 /\ next + 3 <= MaxId
           /\ \E u \in {<< <<7001, R(0..1), 0>>, <<7002, R(0..1)>>, <<7003, R(0..1), 1, 0>> >>} :
              LET ours == {x \in 1..3 : u[x][2] = 1}
                  id(x) == next + Cardinality({y \in ours : y < x})
              IN /\ Log([op |-> "addup", ups |-> u])
                 /\ fm' = [fm EXCEPT !.local = [i \in DOMAIN fm.local \cup {id(x) : x \in ours} |->
                       IF i \in DOMAIN fm.local THEN fm.local[i]
                       ELSE [f |-> 0, s |-> 1, m |-> {}, o |-> 0]]]
                 /\ next' = next + Cardinality(ours)
           /\ UNCHANGED <<n, used, phase>>
DoTracked == /\ phase = "idle" /\ R(1..4) = 1
             /\ \E v \in {Some(AllIds, 8)} : Log([op |-> "tracked", visible |-> S2S(v)])
             /\ UNCHANGED <<fm, next, n, used, phase>>
DoReset == /\ phase = "idle" /\ R(1..15) = 1 /\ Style = 0 /\ fm' = Reset(fm) /\ Log([op |-> "reset"]) /\ UNCHANGED <<next, n, used, phase>>
DoDeact == /\ phase = "idle" /\ R(1..40) = 1 /\ Steps > 10 /\ Style = 0
           /\ fm' = [fm EXCEPT !.on = FALSE] /\ Log([op |-> "deactivate"]) /\ UNCHANGED <<next, n, used, phase>>

Act == DoMatch \/ DoOut \/ DoUpd \/ DoBadUpd \/ DoNo \/ DoStage \/ DoSkip \/ DoBadStage \/ DoUp \/ DoAddUp \/ DoTracked \/ DoReset \/ DoDeact
Close == /\ Steps >= Len0 /\ ~stop /\ stop' = TRUE
         /\ ops' = Append(ops, [op |-> "destroy"])
         /\ CSVWrite("%1$s", <<ToJson(ops')>>, IOEnv.OUT)
         /\ UNCHANGED <<fm, next, n, used, phase>>
Next == \/ (Steps < Len0 /\ ~stop /\ Act /\ UNCHANGED stop) \/ Close
Spec == Init /\ [][Next]_vars
Disjoint == DOMAIN fm.local \cap DOMAIN fm.staged = {}
=============================================================================
