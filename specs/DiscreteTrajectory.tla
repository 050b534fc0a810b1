-------------------------- MODULE DiscreteTrajectory --------------------------
(***************************************************************************)
(* Discrete trajectories (physics/discrete_trajectory).  A trajectory is a *)
(* nonempty sequence of segments, each a sequence of points <<t, x, v>>    *)
(* having strictly increasing times.  It denotes a single timeline: the    *)
(* concatenation of its segments, whose common points are only counted     *)
(* once.                                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Last(s) == s[Len(s)]
Time(p) == p[1]
End == -1
Empty(segs) == \A i \in 1..Len(segs) : segs[i] = <<>>
Nonempty(segs) == {i \in 1..Len(segs) : segs[i] # <<>>}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

Increasing(s) == \A i \in 1..Len(s) - 1 : Time(s[i]) < Time(s[i + 1])

(* The segments are consistent if the empty ones come first and each other *)
(* segment ends with the point where the next one starts.                  *)
Consistent(segs) ==
  /\ Len(segs) >= 1
  /\ \A i \in 1..Len(segs) : Increasing(segs[i])
  /\ \A i \in 1..Len(segs) - 1 :
       segs[i] # <<>> => segs[i + 1] # <<>> /\ Last(segs[i]) = Head(segs[i + 1])

RECURSIVE FlatFrom(_, _, _)
FlatFrom(segs, i, acc) ==
  IF i > Len(segs) THEN acc
  ELSE FlatFrom(segs, i + 1,
                IF segs[i] = <<>> THEN acc
                ELSE IF acc = <<>> THEN segs[i] ELSE acc \o Tail(segs[i]))
\* The timeline.
Flat(segs) == FlatFrom(segs, 1, <<>>)

Front(segs) == Head(segs[MinOf(Nonempty(segs))])
Back(segs) == Last(segs[Len(segs)])

None == [ok |-> FALSE, segs |-> <<>>]
Some(segs) == IF Consistent(segs) THEN [ok |-> TRUE, segs |-> segs] ELSE None

(***************************************************************************)
(* The operations.  Each yields a record telling if it is permitted and    *)
(* its result.                                                             *)
(***************************************************************************)
New == <<<<>>>>

\* Appending at the beginning of a segment does nothing.
AppendResult(segs, p) ==
  IF Empty(segs)
  THEN Some([segs EXCEPT ![Len(segs)] = <<p>>])
  ELSE IF \E i \in Nonempty(segs) : Time(Head(segs[i])) = Time(p)
  THEN Some(segs)
  ELSE IF Time(p) > Time(Back(segs))
  THEN Some([segs EXCEPT ![Len(segs)] = Append(@, p)])
  ELSE None

NewSegmentResult(segs) ==
  IF Last(segs) = <<>> THEN Some(Append(segs, <<>>))
  ELSE Some(Append(segs, <<Back(segs)>>))

DetachKept(segs, i) == SubSeq(segs, 1, i - 1)
DetachDetached(segs, i) == SubSeq(segs, i, Len(segs))

AttachResult(segs, other) ==
  IF Empty(other) THEN None
  ELSE IF Empty(segs) THEN Some(other)
  ELSE IF Time(Back(segs)) >= Time(Front(other)) THEN Some(segs \o other)
  ELSE Some(segs \o [other EXCEPT ![1] = <<Back(segs)>> \o @])

DeleteResult(segs, i) == Some(SubSeq(segs, 1, i - 1))

Before(s, t) == SelectSeq(s, LAMBDA p : Time(p) < t)
From(s, t) == SelectSeq(s, LAMBDA p : Time(p) >= t)

(* All the points at or after t are removed, except that a point which     *)
(* terminates a segment of at least two points, and where another segment  *)
(* starts, is preserved: only the segments that follow are dropped.        *)
ForgetAfterResult(segs, t) ==
  LET dropped == {i \in Nonempty(segs) : Time(Head(segs[i])) >= t}
      k == MinOf(dropped)
  IN IF Empty(segs) \/ t < Time(Front(segs)) THEN Some(New)
     ELSE IF dropped = {}
     THEN Some([segs EXCEPT ![Len(segs)] = Before(@, t)])
     ELSE IF k = 1 THEN Some(New)
     ELSE IF Time(Head(segs[k])) = t THEN Some(SubSeq(segs, 1, k - 1))
     ELSE Some([SubSeq(segs, 1, k - 1) EXCEPT ![k - 1] = Before(@, t)])

ForgetBeforeResult(segs, t) == Some([i \in 1..Len(segs) |-> From(segs[i], t)])

ClearResult(segs) == Some(New)

Overlap(a, b) ==
  /\ a # <<>> /\ b # <<>>
  /\ Time(Last(a)) > Time(Head(b))
  /\ Time(Last(b)) > Time(Head(a))
\* Merges the segment b into a, with which it doesn't overlap.
MergeSegment(a, b) ==
  IF b = <<>> THEN a
  ELSE IF a = <<>> THEN b
  ELSE IF Time(Last(a)) < Time(Head(b)) THEN a \o b
  ELSE IF Time(Last(a)) = Time(Head(b)) THEN a \o Tail(b)
  ELSE IF Time(Last(b)) = Time(Head(a))
  THEN SubSeq(b, 1, Len(b) - 1) \o a
  ELSE b \o a
MergeResult(segs, other) ==
  LET n == Len(segs)
      m == Len(other)
      size == IF n > m THEN n ELSE m
  IN IF \E i \in 1..n : i <= m /\ Overlap(segs[i], other[i]) THEN None
     ELSE Some([i \in 1..size |->
                  IF i > n THEN other[i]
                  ELSE IF i > m THEN segs[i]
                  ELSE MergeSegment(segs[i], other[i])])

(* Writing the points in [b, e[ and reading them back: the segments that    *)
(* precede them are empty and the ones that follow are dropped, as long as *)
(* there are points.  An end of the range that is End is unbounded.        *)
Slice(s, b, e) ==
  IF b = End \/ b = e THEN <<>> ELSE IF e = End THEN From(s, b) ELSE Before(From(s, b), e)
ReadResult(segs, b, e) ==
  LET s == [i \in 1..Len(segs) |-> Slice(segs[i], b, e)]
  IN Some(IF Empty(s) THEN s ELSE SubSeq(s, 1, MaxOf(Nonempty(s))))
\* The index of a tracked segment after reading, 0 if it is not there any more.
TrackedResult(i, result) == IF i <= Len(result) THEN i ELSE 0

(***************************************************************************)
(* The observations.                                                       *)
(***************************************************************************)
TimesOf(s) == {Time(s[i]) : i \in 1..Len(s)}
MinOrEnd(S) == IF S = {} THEN End ELSE MinOf(S)
Find(s, t) == IF t \in TimesOf(s) THEN t ELSE End
LowerBound(s, t) == MinOrEnd({u \in TimesOf(s) : u >= t})
UpperBound(s, t) == MinOrEnd({u \in TimesOf(s) : u > t})

(* The end of a segment is the first point which comes after it in the     *)
(* timeline.                                                               *)
SegmentEnd(segs, i) ==
  IF segs[i] # <<>> THEN UpperBound(Flat(segs), Time(Last(segs[i])))
  ELSE IF Empty(segs) THEN End
  ELSE Time(Front(segs))
OrEnd(t, segs, i) == IF t = End THEN SegmentEnd(segs, i) ELSE t

(* The cubic Hermite interpolation at q.  For times that are multiples of  *)
(* 8 and even positions, the position is an integer halfway between two    *)
(* points; the velocity is multiplied by 8 and the duration.               *)
PointAt(s, q) == s[CHOOSE i \in 1..Len(s) : Time(s[i]) = q]
LowerPoint(s, q) == PointAt(s, MaxOf({u \in TimesOf(s) : u < q}))
UpperPoint(s, q) == PointAt(s, UpperBound(s, q))
InterpolatedPosition(s, q) ==
  IF q \in TimesOf(s) THEN PointAt(s, q)[2]
  ELSE LET a == LowerPoint(s, q)
           b == UpperPoint(s, q)
       IN (a[2] + b[2]) \div 2 + ((Time(b) - Time(a)) \div 8) * (a[3] - b[3])
\* The velocity times 4h.
InterpolatedVelocity4h(s, q) ==
  LET a == LowerPoint(s, q)
      b == UpperPoint(s, q)
  IN 6 * (b[2] - a[2]) - (Time(b) - Time(a)) * (a[3] + b[3])
===============================================================================
