---------------------------- MODULE FeatureMapMC ----------------------------
(* Exhaustive exploration of FeatureMap with a small environment.           *)
EXTENDS FeatureMap, TLC, Json, CSV, IOUtils

CONSTANTS MaxId, MaxDet, Min, Depth, Emit

VARIABLES fm, next, phase, used, n, written, everLocal, everIn, hist, ops
vars == <<fm, next, phase, used, n, written, everLocal, everIn, hist, ops>>

\* ops: script of the operations so far (kept out of the VIEW; only its length matters)
view == <<fm, next, phase, used, n, written, hist>>

AllIds == 1..MaxId
Init == /\ fm = EmptyMap /\ next = 1 /\ phase = "idle" /\ used = {} /\ n = 0
        /\ written = << >> /\ everLocal = {} /\ everIn = {} /\ hist = {} /\ ops = << [op |-> "new"] >>

Count(w, i) == IF i \in DOMAIN w THEN w[i] ELSE 0
Write(w, S) == [i \in DOMAIN w \cup S |-> Count(w, i) + (IF i \in S THEN 1 ELSE 0)]

Log(op) == ops' = IF Emit THEN Append(ops, op) ELSE ops

SetToSeq0(S) == LET RECURSIVE F(_) F(T) == IF T = {} THEN << >> ELSE LET x == CHOOSE y \in T : \A z \in T : y <= z IN <<x>> \o F(T \ {x}) IN F(S)
CandSeq(cand) == [i \in AllIds |-> SetToSeq0(IF i \in DOMAIN cand THEN cand[i] ELSE {})]

\* frames: match -> (outlier) -> update -> stage, or match -> no tracking -> stage all
DoMatch == /\ phase = "idle"
           /\ \E k \in 0..MaxDet, cand \in [Ids(fm) -> SUBSET (0..(MaxDet-1))], hidden \in {{}} \cup {{i} : i \in Ids(fm)} :
                /\ \A i \in Ids(fm) : cand[i] \subseteq 0..(k-1)
                /\ LET env == [visible |-> AllIds \ hidden, moving |-> {}, cand |-> cand, wide |-> cand, min |-> Min]
                   IN \E r \in Match(fm, env) :
                        /\ fm' = r.map
                        /\ hist' = r.out
                /\ n' = k
                /\ Log([op |-> "match", n |-> k, min |-> Min, visible |-> SetToSeq0(AllIds \ hidden), moving |-> << >>,
                        cand |-> CandSeq(cand), wide |-> CandSeq(cand)])
           /\ phase' = "matched" /\ used' = {}
           /\ UNCHANGED <<next, written, everLocal, everIn>>

DoOutlier == /\ phase = "matched"
             /\ \E p \in hist : /\ fm' = Unmatch(fm, {p}) /\ hist' = hist \ {p}
                                /\ Log([op |-> "outliers", pairs |-> <<p>>, foreign |-> << >>])
             /\ UNCHANGED <<next, phase, used, n, written, everLocal, everIn>>

DoUpdate == /\ phase = "matched"
            /\ \E bad \in {{}} \cup {{i} : i \in Ids(fm)}, badpromo \in {{}} \cup {{i} : i \in DOMAIN fm.staged} :
                 LET okset == {<<i, d>> : i \in AllIds \ bad, d \in 0..(MaxDet-1)}
                     r == Update(fm, [ok |-> okset, badpromo |-> badpromo])
                 IN /\ fm' = r.map /\ used' = r.used
                    /\ written' = Write(written, r.leaving)
                    /\ everLocal' = everLocal \cup DOMAIN r.map.local
                    /\ Log([op |-> "update", badcov |-> 0, moving |-> << >>, badpromo |-> SetToSeq0(badpromo), badids |-> SetToSeq0(bad), bad |-> << >>])
            /\ phase' = "updated" /\ hist' = {}
            /\ UNCHANGED <<next, n, everIn>>

DoNoTracking == /\ phase = "matched"
                /\ LET r == NoTracking(fm) IN
                     /\ fm' = r.map /\ used' = {}
                     /\ written' = Write(written, r.leaving)
                /\ Log([op |-> "notrack", moving |-> << >>])
                /\ phase' \in {"updated", "idle"}   \* lost: all detections are staged; otherwise none
                /\ hist' = {} /\ UNCHANGED <<next, n, everLocal, everIn>>

DoStage == /\ phase = "updated"
           /\ \E addable \in SUBSET (0..(n-1)) :
              LET env == [n |-> n, addable |-> addable, badctor |-> {}]
                  T == ToStage(env, used)
                  k == Cardinality(T)
                  ids == [d \in T |-> next + Cardinality({e \in T : e < d})]
              IN /\ next + k - 1 <= MaxId
                 /\ fm' = Stage(fm, ids, 0)
                 /\ next' = next + k
                 /\ everIn' = everIn \cup {ids[d] : d \in T}
                 /\ Log([op |-> "stage", badcov |-> 0, addable |-> SetToSeq0(addable), badctor |-> << >>, all |-> IF Len(ops) > 0 /\ ops[Len(ops)].op = "notrack" THEN 1 ELSE 0])
           /\ phase' = "idle" /\ used' = {} /\ hist' = {}
           /\ UNCHANGED <<n, written, everLocal>>

DoReset == /\ phase = "idle" /\ Ids(fm) # {}
           /\ fm' = Reset(fm) /\ Log([op |-> "reset"])
           /\ UNCHANGED <<next, phase, used, n, written, everLocal, everIn, hist>>

DoUpgrade == /\ phase = "updated"
             /\ \E i \in Ids(fm) :
                  /\ fm' = Upgrade(fm, {i}).map
                  /\ Log([op |-> "upgrade", ready |-> <<i>>, null |-> << >>])
             /\ UNCHANGED <<next, phase, used, n, written, everLocal, everIn, hist>>

Next == DoMatch \/ DoOutlier \/ DoUpdate \/ DoNoTracking \/ DoStage \/ DoReset \/ DoUpgrade
Spec == Init /\ [][Next]_vars

Bound == TLCGet("level") <= Depth

EmitEdge == Emit => CSVWrite("%1$s", <<ToJson(ops')>>, IOEnv.OUT)

-----------------------------------------------------------------------------
Disjoint      == DOMAIN fm.local \cap DOMAIN fm.staged = {}
FreshIds      == \A i \in Ids(fm) : i < next /\ i \in everIn
ConfirmedOnly == DOMAIN fm.local \subseteq everLocal
WrittenOnce   == \A i \in DOMAIN written : written[i] = 1
WrittenGone   == DOMAIN written \cap Ids(fm) = {}
OneOwner      == \A i, j \in Ids(fm) : i # j =>
                    LET mk(x) == IF x \in DOMAIN fm.local THEN fm.local[x].m ELSE fm.staged[x].m
                    IN mk(i) \cap mk(j) = {}
MarksInFrame  == \A i \in DOMAIN fm.local : fm.local[i].m \subseteq 0..(n-1)
NotLost       == \A i \in DOMAIN fm.local : ~IsLost(fm.local[i])
StagedAlive   == \A i \in DOMAIN fm.staged : phase # "updated" \/ ~Drops(fm.staged[i])
\* identity is never given twice and a feature never goes back from confirmed to provisional
NeverBack     == [][\A i \in DOMAIN fm'.staged : i \notin DOMAIN fm.local]_vars
NeverReborn   == [][\A i \in Ids(fm') \ Ids(fm) : i >= next]_vars
=============================================================================
