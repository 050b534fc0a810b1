------------------------- MODULE ContinuousTrajectory -------------------------
(***************************************************************************)
(* A continuous trajectory, whose points are appended at equidistant times *)
(* (the step is 1) and incorporated in polynomials by batches of Divisions *)
(* steps.                                                                  *)
(*                                                                         *)
(* The polynomial obtained for a batch is a function of its points and of  *)
(* those of the batches that preceded it, since the degree and tolerance   *)
(* are adjusted as polynomials are constructed.  Thus, the history of the  *)
(* trajectory identifies the polynomial.  A batch is <<t, motions>> where  *)
(* t is its first time and motions tells, for each point, which motion it  *)
(* was taken from.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Divisions
None == [none |-> TRUE]

NewContinuous ==
  [first |-> -1,      \* The time of the first point, or -1.
   polys |-> <<>>,    \* Their end times and identities.
   last |-> <<>>,     \* The points not incorporated in a polynomial.
   hist |-> <<>>,     \* The batches incorporated.
   cps |-> <<>>]      \* The checkpoints, by increasing time.

IsEmpty(x) == x.polys = <<>>
TMin(x) == x.first
TMax(x) == x.polys[Len(x.polys)].t
LastTime(x) == x.last[Len(x.last)].t
CanEvaluate(x, t) == ~IsEmpty(x) /\ TMin(x) <= t /\ t <= TMax(x)

(***************************************************************************)
(* Appending.                                                              *)
(***************************************************************************)
CanAppend(x, t) == IF x.last = <<>> THEN TRUE ELSE t = LastTime(x) + 1
Batch(last, p) ==
  <<last[1].t, [i \in 1..Divisions + 1 |-> IF i <= Divisions THEN last[i].c ELSE p.c]>>
AppendPoint(x, p) ==
  LET first == IF x.first = -1 THEN p.t ELSE x.first
  IN IF Len(x.last) = Divisions
     THEN LET hist == Append(x.hist, Batch(x.last, p))
          IN [x EXCEPT !.first = first,
                       !.polys = Append(@, [t |-> p.t, id |-> hist]),
                       !.hist = hist,
                       !.last = <<p>>]
     ELSE [x EXCEPT !.first = first, !.last = Append(@, p)]
RECURSIVE AppendPoints(_, _)
AppendPoints(x, ps) ==
  IF ps = <<>> THEN x ELSE AppendPoints(AppendPoint(x, Head(ps)), Tail(ps))

(***************************************************************************)
(* Prepending y to x.  A trajectory that was never appended to becomes y.  *)
(***************************************************************************)
CanPrepend(x, y) == IF IsEmpty(y) THEN TRUE ELSE IF x.last = <<>> THEN TRUE ELSE x.first = TMax(y)
PrependResult(x, y) ==
  IF IsEmpty(y) THEN x
  ELSE IF x.last = <<>> THEN [y EXCEPT !.cps = x.cps]
  ELSE [x EXCEPT !.first = y.first, !.polys = y.polys \o @]

(***************************************************************************)
(* Checkpoints.                                                            *)
(***************************************************************************)
CheckpointTimes(x) == {x.cps[i].t : i \in 1..Len(x.cps)}
AtOrBefore(x, t) == {u \in CheckpointTimes(x) : u <= t}
MaxOf(S) == CHOOSE u \in S : \A v \in S : v <= u
MinOf(S) == CHOOSE u \in S : \A v \in S : u <= v
Checkpoint(x, t) == x.cps[CHOOSE i \in 1..Len(x.cps) : x.cps[i].t = t]
CanWriteCheckpoint(x) ==
  x.last # <<>> /\ \A t \in CheckpointTimes(x) : t < LastTime(x)
WriteCheckpoint(x) ==
  [x EXCEPT !.cps = Append(@, [t |-> LastTime(x), last |-> x.last, hist |-> x.hist])]
\* Going back, in x, to the checkpoint cp.
UpTo(polys, t) == SelectSeq(polys, LAMBDA p : p.t <= t)
Restore(x, cp) ==
  LET polys == UpTo(x.polys, cp.last[1].t)
  IN [x EXCEPT !.polys = polys,
               !.first = IF polys = <<>> THEN cp.last[1].t ELSE @,
               !.last = cp.last,
               !.hist = cp.hist]
\* The trajectory y is restored from the checkpoint of x at t.
RestoreFrom(y, x, t) == Restore(y, Checkpoint(x, t))

(***************************************************************************)
(* Serialization.  The message has all the checkpoints, and the            *)
(* polynomials up to the oldest one.                                       *)
(***************************************************************************)
CanWrite(x) == x.cps # <<>>
Written(x) == [x EXCEPT !.polys = UpTo(@, x.cps[1].t)]
CanRead(x, t) ==
  AtOrBefore(x, t) # {} \/ (~IsEmpty(Written(x)) /\ TMin(x) <= t)
ReadResult(x, t) ==
  LET y == Written(x)
  IN IF AtOrBefore(x, t) # {}
     THEN RestoreFrom([y EXCEPT !.last = <<>>, !.hist = <<>>], x,
                      MaxOf(AtOrBefore(x, t)))
     ELSE [y EXCEPT !.last = <<>>, !.hist = <<>>]

(***************************************************************************)
(* Well-formedness.                                                        *)
(***************************************************************************)
\* The polynomials and the last points cover all the times, without gaps.
Contiguous(x) ==
  /\ \A i \in 1..Len(x.polys) :
       x.polys[i].t = Divisions + IF i = 1 THEN x.first ELSE x.polys[i - 1].t
  /\ x.last # <<>> =>
       /\ x.last[1].t = IF IsEmpty(x) THEN x.first ELSE TMax(x)
       /\ \A i \in 1..Len(x.last) : x.last[i].t = x.last[1].t + i - 1
  /\ Len(x.last) <= Divisions
\* The maximal time lags the last time appended by less than a batch.
Lag(x) == ~IsEmpty(x) /\ x.last # <<>> => LastTime(x) - TMax(x) \in 0..Divisions - 1
===============================================================================
