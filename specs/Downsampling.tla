----------------------------- MODULE Downsampling -----------------------------
(***************************************************************************)
(* Downsampled trajectories.  The retained points are subject to the       *)
(* operations of DiscreteTrajectory.  The specification also remembers,    *)
(* for each trajectory:                                                    *)
(*   dense: the times of all the points appended between its extremities,  *)
(*          retained or not;                                               *)
(*   on:    for each segment, whether it is downsampled;                   *)
(*   loss:  how many times it went through a lossy serialization;          *)
(*   exact: the times of the retained points that are exactly those that   *)
(*          were appended.                                                 *)
(***************************************************************************)
EXTENDS DiscreteTrajectory

NewTraj == [segs |-> New, dense |-> {}, on |-> <<FALSE>>, loss |-> 0, exact |-> {}]

Points(ts) == [i \in 1..Len(ts) |-> <<ts[i], 0, 0>>]
Within(S, segs) ==
  IF Empty(segs) THEN {}
  ELSE {t \in S : Time(Front(segs)) <= t /\ t <= Time(Back(segs))}
Restricted(x) ==
  [x EXCEPT !.dense = Within(@, x.segs), !.exact = Within(@, x.segs)]

MaxLoss(a, b) == IF a > b THEN a ELSE b

(***************************************************************************)
(* What appending the points ts to a segment having the retained points    *)
(* old may produce.  The last point is always retained, and so are the     *)
(* first one and those that were not the last one.  If there is no need to *)
(* retain more (e.g., because the motion is linear) they are not retained. *)
(***************************************************************************)
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Sure(old, ts) ==
  IF old = <<>> THEN <<ts[1]>>
  ELSE IF Len(old) = 1 THEN old
  ELSE SubSeq(old, 1, Len(old) - 1)
MayRetain(old, ts, on, needless, new) ==
  /\ ts # <<>>
  /\ IF ~on THEN new = old \o ts
     ELSE /\ IsPrefix(Sure(old, ts), new)
          /\ Last(new) = Last(ts)
          /\ {new[i] : i \in 1..Len(new)} \subseteq
               {old[i] : i \in 1..Len(old)} \cup {ts[i] : i \in 1..Len(ts)}
          /\ \A i \in 1..Len(new) - 1 : new[i] < new[i + 1]
          /\ needless =>
               new = IF old = <<>> /\ Len(ts) = 1 THEN ts
                     ELSE Append(Sure(old, ts), Last(ts))

NewSegmentTraj(x) ==
  [x EXCEPT !.segs = NewSegmentResult(@).segs, !.on = Append(@, FALSE)]
ForgetAfterTraj(x, t) ==
  LET segs == ForgetAfterResult(x.segs, t).segs
      \* The segment is only reset if t precedes the entire trajectory.
      on == IF Empty(x.segs) \/ t < Time(Front(x.segs)) THEN <<FALSE>>
            ELSE SubSeq(x.on, 1, Len(segs))
  IN Restricted([x EXCEPT !.segs = segs, !.on = on])
ForgetBeforeTraj(x, t) ==
  Restricted([x EXCEPT !.segs = ForgetBeforeResult(@, t).segs])
DetachKeptTraj(x, i) ==
  Restricted([x EXCEPT !.segs = DetachKept(@, i), !.on = SubSeq(@, 1, i - 1)])
DetachedTraj(x, i) ==
  Restricted([x EXCEPT !.segs = DetachDetached(@, i),
                       !.on = SubSeq(@, i, Len(@))])
AttachTraj(x, y) ==
  [segs |-> AttachResult(x.segs, y.segs).segs,
   dense |-> x.dense \cup y.dense,
   exact |-> x.exact \cup y.exact,
   on |-> IF Empty(x.segs) THEN y.on ELSE x.on \o y.on,
   loss |-> MaxLoss(x.loss, y.loss)]
\* The state of a merged segment is that of the latest one.
MergeTraj(x, y) ==
  LET segs == MergeResult(x.segs, y.segs).segs
      n == Len(x.segs)
      m == Len(y.segs)
  IN [segs |-> segs,
      dense |-> x.dense \cup y.dense,
      \* If there is a point in common, either one may be retained.
      exact |-> {t \in x.exact \cup y.exact :
                   /\ t \in TimesOf(Flat(x.segs)) => t \in x.exact
                   /\ t \in TimesOf(Flat(y.segs)) => t \in y.exact},
      on |-> [i \in 1..Len(segs) |->
                IF i > n THEN y.on[i]
                ELSE IF i > m THEN x.on[i]
                ELSE IF y.segs[i] = <<>> THEN x.on[i]
                ELSE IF x.segs[i] = <<>> THEN y.on[i]
                ELSE IF Time(Last(x.segs[i])) <= Time(Head(y.segs[i]))
                THEN y.on[i] ELSE x.on[i]],
      loss |-> MaxLoss(x.loss, y.loss)]
\* Reading the points written from the time b on, the ones in `exact` exactly.
Extremities(segs) ==
  {Time(Head(segs[i])) : i \in Nonempty(segs)} \cup
  {Time(Last(segs[i])) : i \in Nonempty(segs)}
ReadTraj(x, b, exact) ==
  LET segs == IF b = End THEN x.segs ELSE ReadResult(x.segs, b, End).segs
      kept == TimesOf(Flat(segs))
      same == (exact \cup Extremities(segs)) \cap kept
      lossless == \A i \in 1..Len(segs) : x.on[i] => TimesOf(segs[i]) \subseteq same
  IN Restricted([segs |-> segs, dense |-> x.dense,
                 on |-> SubSeq(x.on, 1, Len(segs)),
                 loss |-> IF lossless THEN x.loss ELSE x.loss + 1,
                 exact |-> x.exact \cap same])
\* The points that are read back exactly.
SameAfterRead(x, b, exact) ==
  LET segs == IF b = End THEN x.segs ELSE ReadResult(x.segs, b, End).segs
  IN ((exact \cup Extremities(segs)) \cap TimesOf(Flat(segs)))
       \cup UNION {TimesOf(segs[i]) : i \in {j \in 1..Len(segs) : ~x.on[j]}}

(***************************************************************************)
(* The maximum deviation from the points that were appended, in            *)
(* thousandths of the tolerance.  Each lossy serialization displaces the   *)
(* retained points by at most the tolerance in each coordinate, and their  *)
(* velocities by at most the tolerance over the longest step, which, for a *)
(* planar motion, displaces the interpolation by less than 2300.           *)
(***************************************************************************)
MaxDeviation(x) == 1005 + 2300 * x.loss
===============================================================================
