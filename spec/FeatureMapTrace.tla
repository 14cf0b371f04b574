-------------------------- MODULE FeatureMapTrace ---------------------------
(* Recorded executions of the real feature map, checked step by step        *)
(* against FeatureMap. Each record carries the operation, what the          *)
(* environment did and what was observed after it; the map before a step is *)
(* the one observed after the previous step. FOCUS selects the guarantees   *)
(* (the others are judged by other properties).                             *)
EXTENDS FeatureMap, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS

VARIABLES k, seen, writ, want, on
vars == <<k, seen, writ, want, on>>

ToSet(s) == {s[x] : x \in DOMAIN s}
Pairs(s) == {<<s[x][1], s[x][2]>> : x \in DOMAIN s}

\* observed map of record r
ObsIds(r, w) == {r.feats[x].id : x \in {y \in DOMAIN r.feats : r.feats[y].w = w}}
ObsOf(r, w) == [i \in ObsIds(r, w) |->
   LET x == CHOOSE y \in DOMAIN r.feats : r.feats[y].w = w /\ r.feats[y].id = i
   IN [f |-> r.feats[x].f, s |-> r.feats[x].s, m |-> ToSet(r.feats[x].m), o |-> r.feats[x].o]]
Obs(r) == [on |-> TRUE, local |-> ObsOf(r, "local"), staged |-> ObsOf(r, "staged")]

Table(t, S) == [i \in S |-> IF i \in DOMAIN t THEN ToSet(t[i]) ELSE {}]

Env(r, pre) ==
  [visible |-> ToSet(r.visible), moving |-> ToSet(r.moving), min |-> r.min,
   cand |-> [i \in Ids(pre) |-> Table(r.cand, Ids(pre))[i] \cap (0..(r.n - 1))],
   wide |-> [i \in Ids(pre) |-> Table(r.wide, Ids(pre))[i] \cap (0..(r.n - 1))]]

OkPairs(r, pre) == {<<i, d>> \in (Ids(pre) \X (0..(r.n - 1))) :
                       i \notin ToSet(r.badids) /\ <<i, d>> \notin Pairs(r.bad)}
UEnv(r, pre) == [ok |-> OkPairs(r, pre), badpromo |-> ToSet(r.badpromo)]

\* projections
NoMarks(F) == [i \in DOMAIN F |-> [f |-> F[i].f, s |-> F[i].s, o |-> F[i].o]]
Marks(fm)  == [i \in Ids(fm) |-> IF i \in DOMAIN fm.local THEN fm.local[i].m ELSE fm.staged[i].m]
Same(a, b) == a.local = b.local /\ a.staged = b.staged
SameLife(a, b) == NoMarks(a.local) = NoMarks(b.local) /\ NoMarks(a.staged) = NoMarks(b.staged)

Check(name, focus, p) == IF Focus \notin focus THEN TRUE ELSE IF p THEN TRUE ELSE PrintT(<<"WHY", name>>) /\ FALSE

\* what must hold after any operation on any map
Shape(r, post) ==
  /\ Check("a feature is both confirmed and provisional", {"C01"}, DOMAIN post.local \cap DOMAIN post.staged = {})
  /\ Check("reported sizes differ from the content", {"C01"}, \/ ~on \/ r.op = "deactivate"
        \/ /\ Len(r.feats) = Cardinality(Ids(post)) /\ r.nl = Cardinality(DOMAIN post.local)
           /\ r.ns = Cardinality(DOMAIN post.staged) /\ r.size = r.nl + r.ns)

Exported(r) == ToSet(r.written)
ExportOnce(r) ==
  /\ Check("a feature is exported twice", {"C05"}, /\ Len(r.written) = Cardinality(Exported(r))
                                                   /\ Exported(r) \cap writ = {})
ExportIs(r, must, may) ==
  /\ ExportOnce(r)
  /\ Check("a confirmed feature left the map without being exported", {"C05"}, must \subseteq Exported(r))
  /\ Check("a feature was exported that is neither confirmed nor leaving", {"C05"}, Exported(r) \subseteq must \cup may)

\* the content of a deactivated map is not displayed, its sizes are
Quiet(r) ==
  Check("an operation on a deactivated map had an effect", {"C04"},
        /\ r.nl = Trace[k - 1].nl /\ r.ns = Trace[k - 1].ns /\ r.written = << >> /\ r.feats = << >>)

StepMatch(r, pre, post) ==
  LET res == Match(pre, Env(r, pre)) IN
  /\ Check("matching is not a conflict-free assignment of free detections", {"C02"},
           \E x \in res : Marks(x.map) = Marks(post) /\ x.out = Pairs(r.out) /\ Len(r.out) = Cardinality(Pairs(r.out)))
  /\ Check("matching changed the life of a feature", {"C01"}, SameLife(pre, post))
  /\ ExportIs(r, {}, {})

StepOutliers(r, pre, post) ==
  LET want1 == Unmatch(pre, Pairs(r.pairs)) IN
  /\ Check("outlier rejection did not free exactly the rejected detections", {"C02"}, Marks(post) = Marks(want1))
  /\ Check("outlier rejection changed the life of a feature", {"C01"}, SameLife(pre, post))
  /\ ExportIs(r, {}, {})

StepUpdate(r, pre, post) ==
  IF r.badcov = 1
  THEN /\ Check("an update with an invalid covariance was accepted", {"C04"}, r.threw = 1 /\ Same(pre, post))
       /\ ExportIs(r, {}, {})
  ELSE
  LET x == Update(pre, UEnv(r, pre))
      mv == ToSet(r.moving)
  IN /\ Check("a valid update was refused", {"C04"}, r.threw = 0)
     /\ Check("confirmed features after the update", {"C01"}, NoMarks(x.map.local) = NoMarks(post.local))
     /\ Check("provisional features after the update", {"C01"}, NoMarks(x.map.staged) = NoMarks(post.staged))
     /\ Check("matches after the update", {"C02"}, \A i \in Ids(x.map) \cap Ids(post) : Marks(x.map)[i] = Marks(post)[i])
     /\ ExportIs(r, x.leaving \ mv, x.leaving)

StepNoTrack(r, pre, post) ==
  LET x == NoTracking(pre) IN
  /\ Check("features after a frame without a pose", {"C01", "C04"}, SameLife(x.map, post))
  /\ Check("matches survived a frame without a pose", {"C02", "C04"}, \A i \in Ids(post) : Marks(post)[i] = {})
  /\ ExportIs(r, x.leaving \ ToSet(r.moving), x.leaving)

StepStage(r, pre, post) ==
  IF r.badcov = 1
  THEN /\ Check("staging with an invalid covariance was accepted", {"C04"}, r.threw = 1 /\ Same(pre, post))
       /\ ExportIs(r, {}, {})
  ELSE
  LET T == ToStage([n |-> r.n, addable |-> ToSet(r.addable), badctor |-> ToSet(r.badctor)],
                   IF r.all = 1 THEN {} ELSE want)
      new == DOMAIN post.staged \ DOMAIN pre.staged
  IN /\ Check("staging refused", {"C04"}, r.threw = 0)
     /\ Check("the unused detections did not become provisional features, one each", {"C03"},
              /\ Cardinality(new) = Cardinality(T)
              /\ {post.staged[i].o : i \in new} = {r.label + d : d \in T})
     /\ Check("a new provisional feature does not start blank", {"C03"},
              \A i \in new : post.staged[i].f = 0 /\ post.staged[i].s = 0 /\ post.staged[i].m = {})
     /\ Check("an identifier was reused", {"C01"}, new \cap seen = {})
     /\ Check("staging changed other features", {"C01", "C03"}, /\ pre.local = post.local
                                  /\ DOMAIN pre.staged \subseteq DOMAIN post.staged
                                  /\ \A i \in DOMAIN pre.staged : pre.staged[i] = post.staged[i])
     /\ ExportIs(r, {}, {})

StepUpgrade(r, pre, post) ==
  LET x == Upgrade(pre, ToSet(r.ready) \ ToSet(r.null)) IN
  /\ Check("upgrading removed the wrong features", {"C07"}, Same(x.map, post))
  /\ Check("the upgraded features handed over are not those removed", {"C07"},
           /\ Len(r.out) = Cardinality(Ids(pre)) - Cardinality(Ids(post))
           /\ {[m |-> ToSet(r.out[y].m), o |-> r.out[y].o] : y \in DOMAIN r.out} = x.out)
  /\ ExportIs(r, {}, {})

StepAddUp(r, pre, post) ==
  LET ours == {x \in DOMAIN r.ups : r.ups[x][2] = 1}
      new  == DOMAIN post.local \ DOMAIN pre.local
      As(x) == [m |-> {r.ups[x][y] : y \in 3..Len(r.ups[x])}, o |-> r.ups[x][1]]
  IN /\ Check("upgraded features of this kind were not all received, once each", {"C07"},
              /\ r.added = Cardinality(ours)
              /\ Cardinality(new) = Cardinality(ours)
              /\ {[m |-> post.local[i].m, o |-> post.local[i].o] : i \in new} = {As(x) : x \in ours})
     /\ Check("an identifier was reused", {"C01", "C07"}, new \cap seen = {})
     /\ Check("receiving upgraded features changed others", {"C07"},
              /\ pre.staged = post.staged /\ DOMAIN pre.local \subseteq DOMAIN post.local
              /\ \A i \in DOMAIN pre.local : pre.local[i] = post.local[i])
     /\ ExportIs(r, {}, {})

StepReset(r, pre, post) ==
  /\ Check("the map is not empty after a reset", {"C04"}, Ids(post) = {} /\ r.size = 0)
  /\ ExportIs(r, {}, DOMAIN pre.local)

StepDestroy(r, pre, post) ==
  /\ Check("closing the map changed it", {"C05"}, Same(pre, post))
  /\ ExportIs(r, DOMAIN pre.local \ ToSet(r.moving), DOMAIN pre.local)

StepTracked(r, pre, post) ==
  LET x == Tracked(pre, [visible |-> ToSet(r.visible)]) IN
  /\ Check("features offered for tracking", {"C02"}, ToSet(r.offered) = x /\ Len(r.offered) = Cardinality(x))
  /\ Check("asking for tracked features changed the map", {"C02"}, Same(pre, post))
  /\ ExportIs(r, {}, {})

Off(r) ==
  /\ IF r.op \in {"upgrade", "addup"} THEN TRUE ELSE Quiet(r)
  /\ CASE r.op = "match" -> Check("a deactivated map matched", {"C04"}, r.out = << >>)
       [] r.op = "tracked" -> Check("a deactivated map offered features", {"C04"}, r.offered = << >>)
       [] OTHER -> TRUE

Pre == IF k = 1 THEN EmptyMap ELSE Obs(Trace[k - 1])

Step ==
  /\ k <= Len(Trace)
  /\ LET r == Trace[k]
         pre == IF r.op = "new" THEN EmptyMap ELSE Pre
         post == Obs(r)
     IN /\ Shape(r, post)
        /\ IF ~on /\ r.op # "new" THEN Off(r)
           ELSE CASE r.op = "new" -> Check("a new map is not empty", {"C01"}, Ids(post) = {})
             [] r.op = "match" -> StepMatch(r, pre, post)
             [] r.op = "outliers" -> StepOutliers(r, pre, post)
             [] r.op = "update" -> StepUpdate(r, pre, post)
             [] r.op = "notrack" -> StepNoTrack(r, pre, post)
             [] r.op = "stage" -> StepStage(r, pre, post)
             [] r.op = "upgrade" -> StepUpgrade(r, pre, post)
             [] r.op = "addup" -> StepAddUp(r, pre, post)
             [] r.op = "reset" -> StepReset(r, pre, post)
             [] r.op = "destroy" -> StepDestroy(r, pre, post)
             [] r.op = "tracked" -> StepTracked(r, pre, post)
             [] r.op = "deactivate" -> TRUE
             [] r.op = "many" -> Check("identities are given twice, or an invalid one is given", {"C01"}, r.fresh = r.count)
        /\ seen' = (IF r.op = "new" THEN {} ELSE seen) \cup Ids(post)
        /\ writ' = IF r.op \in {"new", "destroy"} THEN {} ELSE writ \cup Exported(r)
        /\ want' = IF r.op = "update" /\ r.badcov = 0 /\ on THEN Update(pre, UEnv(r, pre)).used
                   ELSE IF r.op \in {"new", "match", "notrack"} THEN {} ELSE want
        /\ on' = IF r.op = "new" THEN TRUE ELSE IF r.op = "deactivate" THEN FALSE ELSE on
        /\ k' = k + 1

Init == k = 1 /\ seen = {} /\ writ = {} /\ want = {} /\ on = TRUE
Next == Step
Spec == Init /\ [][Next]_vars

Accepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
            \/ PrintT(<<"REJECTED", TLCGet("stats").diameter>>)
=============================================================================
