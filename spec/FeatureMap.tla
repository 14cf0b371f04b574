----------------------------- MODULE FeatureMap -----------------------------
(***************************************************************************)
(* The feature map of the SLAM system: a set of confirmed ("local") and a  *)
(* set of provisional ("staged") features, driven frame by frame.          *)
(*                                                                         *)
(* Everything is written functionally: an operator takes the map before a  *)
(* step and the step (operation + what the environment does during it) and *)
(* gives the set of maps allowed after it.  FeatureMapMC explores these    *)
(* operators exhaustively; FeatureMapTrace checks recorded executions of   *)
(* the real template against the very same operators.                      *)
(*                                                                         *)
(* A map is [on, local, staged]; local/staged are functions                *)
(*   id -> [f, s, m, o]                                                    *)
(* f failed tracking count, s successive match count, m the set of matched *)
(* detection indexes of the current frame, o the label of the detection    *)
(* the feature was created from.                                           *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

CONSTANTS LostAfter,      \* a confirmed feature is lost when f > LostAfter
          PromoteAt,      \* a provisional feature is confirmed when s >= PromoteAt
          DropAt          \* a provisional feature is dropped when s <= DropAt

Neg1 == -1   \* (TLC configuration files have no negative literals)
Neg2 == -2
Neg15 == -15

EmptyMap == [on |-> TRUE, local |-> << >>, staged |-> << >>]

Ids(fm) == DOMAIN fm.local \cup DOMAIN fm.staged
Restrict(f, S) == [x \in S |-> f[x]]
Max2(a, b) == IF a >= b THEN a ELSE b

-----------------------------------------------------------------------------
(* Matching.  cand[id] is what the feature would find among the detections *)
(* that are still free; features are visited in an arbitrary order, all    *)
(* confirmed ones before any provisional one.                              *)

Searchable(S, env) == {i \in S : i \in env.visible /\ i \notin env.moving}

\* acc: [marks: id -> set of detections, taken: detections, out: set of <<id, det>>]
Take(acc, i, cand, add) ==
  LET found == cand[i] \ acc.taken IN
    [marks |-> [acc.marks EXCEPT ![i] = found],
     taken |-> acc.taken \cup found,
     out   |-> IF add THEN acc.out \cup {<<i, d>> : d \in found} ELSE acc.out]

\* Features whose candidates nobody else in `todo` wants commute with all others.
RECURSIVE TakeAll(_, _, _, _)
TakeAll(acc, S, cand, add) ==
  IF S = {} THEN acc
  ELSE LET i == CHOOSE x \in S : TRUE IN TakeAll(Take(acc, i, cand, add), S \ {i}, cand, add)

RECURSIVE Visit(_, _, _, _)
Visit(acc, todo, cand, add) ==
  LET contested == {i \in todo : \E j \in todo \ {i} : cand[i] \cap cand[j] # {}}
      free      == todo \ contested
      acc1      == TakeAll(acc, free, cand, add)
  IN IF contested = {} THEN {acc1}
     ELSE UNION {Visit(Take(acc1, i, cand, add), contested \ {i}, cand, add) : i \in contested}

MatchPass(fm, env, cand) ==
  LET ids   == Ids(fm)
      acc0  == [marks |-> [i \in ids |-> {}], taken |-> {}, out |-> {}]
      afterLocal == Visit(acc0, Searchable(DOMAIN fm.local, env), cand, TRUE)
  IN UNION {Visit(a, Searchable(DOMAIN fm.staged, env), cand,
                  Cardinality(a.out) < 3 * env.min) : a \in afterLocal}

SetMarks(fm, marks) ==
  [fm EXCEPT !.local  = [i \in DOMAIN fm.local  |-> [fm.local[i]  EXCEPT !.m = marks[i]]],
             !.staged = [i \in DOMAIN fm.staged |-> [fm.staged[i] EXCEPT !.m = marks[i]]]]

\* set of [map, out]: a second, wider search replaces the first one when it found too few
Match(fm, env) ==
  IF ~fm.on THEN {[map |-> fm, out |-> {}]}
  ELSE UNION {
         IF Cardinality(a.out) < env.min
         THEN {[map |-> SetMarks(fm, b.marks), out |-> b.out] : b \in MatchPass(fm, env, env.wide)}
         ELSE {[map |-> SetMarks(fm, a.marks), out |-> a.out]}
         : a \in MatchPass(fm, env, env.cand)}

\* Outliers of the pose estimation lose exactly the rejected detection.
Unmatch(fm, outl) ==
  IF ~fm.on THEN fm
  ELSE LET lost(i) == {p[2] : p \in {q \in outl : q[1] = i}}
       IN [fm EXCEPT !.local  = [i \in DOMAIN fm.local  |-> [fm.local[i]  EXCEPT !.m = @ \ lost(i)]],
                     !.staged = [i \in DOMAIN fm.staged |-> [fm.staged[i] EXCEPT !.m = @ \ lost(i)]]]

-----------------------------------------------------------------------------
(* Update after a successful pose: ok is the set of <<id, detection>> whose *)
(* measurement update succeeds.                                            *)

Good(F, i, env) == {d \in F[i].m : <<i, d>> \in env.ok}
Bump(F, i, env) ==
  IF Good(F, i, env) # {}
  THEN [F[i] EXCEPT !.f = 0, !.s = @ + 1]
  ELSE [F[i] EXCEPT !.f = @ + 1, !.s = @ - 1, !.m = {}]
Miss(F, i) == [F[i] EXCEPT !.f = @ + 1, !.s = @ - 1, !.m = {}]

IsLost(x)   == x.f > LostAfter
Promotes(x) == x.s >= PromoteAt
Drops(x)    == x.s <= DropAt

Update(fm, env) ==
  IF ~fm.on THEN [map |-> fm, used |-> {}, leaving |-> {}]
  ELSE
  LET L1 == [i \in DOMAIN fm.local  |-> Bump(fm.local, i, env)]
      S1 == [i \in DOMAIN fm.staged |-> Bump(fm.staged, i, env)]
      lost == {i \in DOMAIN L1 : IsLost(L1[i])}
      up   == {i \in DOMAIN S1 : Promotes(S1[i])}
      conf == {i \in up : i \notin env.badpromo}
      drop == {i \in DOMAIN S1 \ up : Drops(S1[i])}
      keepL == DOMAIN L1 \ lost
      keepS == DOMAIN S1 \ (conf \cup drop)
  IN [map |-> [fm EXCEPT
        !.local  = [i \in keepL \cup conf |-> IF i \in conf THEN [S1[i] EXCEPT !.f = 0] ELSE L1[i]],
        !.staged = Restrict(S1, keepS)],
      \* detections consumed by this frame: those that updated a confirmed feature,
      \* and those matched to a provisional one
      used |-> UNION {Good(fm.local, i, env) : i \in DOMAIN fm.local}
                 \cup UNION {fm.staged[i].m : i \in DOMAIN fm.staged},
      leaving |-> lost]

NoTracking(fm) ==
  IF ~fm.on THEN [map |-> fm, leaving |-> {}]
  ELSE
  LET L1 == [i \in DOMAIN fm.local  |-> Miss(fm.local, i)]
      S1 == [i \in DOMAIN fm.staged |-> Miss(fm.staged, i)]
      lost == {i \in DOMAIN L1 : IsLost(L1[i])}
      drop == {i \in DOMAIN S1 : Drops(S1[i])}
  IN [map |-> [fm EXCEPT !.local  = Restrict(L1, DOMAIN L1 \ lost),
                         !.staged = Restrict(S1, DOMAIN S1 \ drop)],
      leaving |-> lost]

\* Detections that become new provisional features.
ToStage(env, used) == {d \in 0..(env.n - 1) : d \notin used /\ d \in env.addable /\ d \notin env.badctor}
NewFeature(label) == [f |-> 0, s |-> 0, m |-> {}, o |-> label]

\* `ids` : the identifiers given to the new features, a bijection detection -> id
Stage(fm, ids, label) ==
  IF ~fm.on THEN fm
  ELSE LET new == {ids[d] : d \in DOMAIN ids}
           det(i) == CHOOSE d \in DOMAIN ids : ids[d] = i
       IN [fm EXCEPT !.staged = [i \in DOMAIN fm.staged \cup new |->
                IF i \in new THEN NewFeature(label + det(i)) ELSE fm.staged[i]]]

Upgrade(fm, ready) ==
  LET gone == Ids(fm) \cap ready
  IN [map |-> [fm EXCEPT !.local = Restrict(fm.local, DOMAIN fm.local \ gone),
                         !.staged = Restrict(fm.staged, DOMAIN fm.staged \ gone)],
      out |-> {[m |-> IF i \in DOMAIN fm.local THEN fm.local[i].m ELSE fm.staged[i].m,
                o |-> IF i \in DOMAIN fm.local THEN fm.local[i].o ELSE fm.staged[i].o] : i \in gone}]

Reset(fm) == IF fm.on THEN [fm EXCEPT !.local = << >>, !.staged = << >>] ELSE fm

Tracked(fm, env) == IF fm.on THEN {i \in DOMAIN fm.local : fm.local[i].m # {} /\ i \in env.visible} ELSE {}
=============================================================================
