---------------------------- MODULE FlightPlanMC ------------------------------
(***************************************************************************)
(* The incremental computation of the segments of a flight plan.  A burn   *)
(* is an instant; a segment is the instant where it ends.  Coasts longer   *)
(* than MaxLength fail because of the number of steps, segments that end   *)
(* after the ephemeris fail because of a deadline.  The design is that     *)
(* every edit keeps the segments that precede the burn which is edited and *)
(* counts the anomalous segments as they are added and removed; the        *)
(* properties say that the result only depends on the burns.               *)
(***************************************************************************)
EXTENDS FlightPlan

CONSTANTS Horizon, MaxBurns, MaxLength, Frame

VARIABLES burns, desired, segs, count, status, tmax
vars == <<burns, desired, segs, count, status, tmax>>

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a

\* The end of a segment: [to, status, tmax].
Flow(from, target, t, steps) ==
  LET t1 == IF t < target THEN Min(target, t + steps) ELSE t
      to == Min(target, t1)
  IN  IF to - from > MaxLength
      THEN [to |-> from + MaxLength, status |-> "steps", tmax |-> t1]
      ELSE [to |-> to, status |-> IF to = target THEN "ok" ELSE "deadline",
            tmax |-> t1]

\* A state of the computation: [segs, count, status, tmax].
LastTo(s) == s.segs[Len(s.segs)]
Start(s) == IF Len(s.segs) = 1 THEN 0 ELSE s.segs[Len(s.segs) - 1]

Extend(s, target, steps) ==
  IF s.count > 0 THEN s
  ELSE LET f == Flow(Start(s), target, s.tmax, steps)
       IN  [segs |-> [s.segs EXCEPT ![Len(s.segs)] = f.to],
            count |-> IF f.status = "ok" THEN 0 ELSE 1,
            status |-> IF f.status = "ok" THEN s.status ELSE f.status,
            tmax |-> f.tmax]

Add(s) ==
  [s EXCEPT !.segs = Append(@, LastTo(s)),
            !.count = IF @ > 0 THEN @ + 1 ELSE 0]

RECURSIVE Burnt(_, _, _, _)
Burnt(s, bs, i, steps) ==
  IF i > Len(bs) THEN s
  ELSE Burnt(Add(Extend(Add(Extend(s, bs[i], steps)), bs[i], steps)),
             bs, i + 1, steps)

Compute(s, bs, i, end, steps) ==
  LET s0 == [s EXCEPT !.status = IF s.count = 0 THEN "ok" ELSE @]
      s1 == Burnt(s0, bs, i, steps)
  IN  Extend(s1, end, steps)

Pop(s, n) ==
  [s EXCEPT !.segs = SubSeq(@, 1, Len(@) - n), !.count = Max(@ - n, 0)]
Reset(s) ==
  [s EXCEPT !.segs[Len(s.segs)] = Start(s),
            !.count = IF @ = 1 THEN 0 ELSE @]

Current == [segs |-> segs, count |-> count, status |-> status, tmax |-> tmax]
Install(s) ==
  /\ segs' = s.segs
  /\ count' = s.count
  /\ status' = s.status
  /\ tmax' = s.tmax

Affected(s, i) == Reset(Pop(s, Len(s.segs) - (2 * i - 1)))

Init ==
  /\ burns = <<>>
  /\ desired \in 1..Horizon
  /\ LET s == Compute([segs |-> <<0>>, count |-> 0, status |-> "ok",
                       tmax |-> 0], <<>>, 1, desired, Frame)
     IN  segs = s.segs /\ count = s.count /\ status = s.status /\
         tmax = s.tmax

Insert(i, t) ==
  LET lo == IF i = 1 THEN 0 ELSE burns[i - 1]
      hi == IF i > Len(burns) THEN desired ELSE burns[i]
      bs == InsertAt(burns, i, t)
  IN  /\ Len(burns) < MaxBurns
      /\ lo < t /\ t < hi
      /\ burns' = bs
      /\ UNCHANGED desired
      /\ Install(Compute(Affected(Current, i), bs, i, desired, Frame))

Remove(i) ==
  LET bs == RemoveAt(burns, i)
  IN  /\ burns' = bs
      /\ UNCHANGED desired
      /\ Install(Compute(Affected(Current, i), bs, i, desired, Frame))

Replace(i, t) ==
  LET lo == IF i = 1 THEN 0 ELSE burns[i - 1]
      bs == [burns EXCEPT ![i] = t]
      d == IF i = Len(burns) THEN Max(desired, t) ELSE desired
  IN  /\ lo < t
      /\ (IF i = Len(burns) THEN TRUE ELSE t < burns[i + 1]) = TRUE
      /\ burns' = bs
      /\ desired' = d
      /\ Install(Compute(Affected(Current, i), bs, i, d, Frame))

SetFinal(t) ==
  /\ (IF burns = <<>> THEN TRUE ELSE burns[Len(burns)] <= t) = TRUE
  /\ desired' = t
  /\ UNCHANGED burns
  /\ Install(Compute(Reset(Current), burns, Len(burns) + 1, t, Frame))

Recompute ==
  /\ UNCHANGED <<burns, desired>>
  /\ Install(Compute(Reset(Pop(Current, Len(segs) - 1)), burns, 1, desired,
                     Frame))

Avoid ==
  LET n == count \div 2
  IN  /\ count > 0 /\ status = "deadline"
      /\ UNCHANGED <<burns, desired>>
      /\ Install(Compute(Reset(Pop(Current, 2 * n)), burns,
                         Len(burns) - n + 1, desired, 0))

Prolong ==
  /\ tmax < Horizon
  /\ tmax' = tmax + 1
  /\ UNCHANGED <<burns, desired, segs, count, status>>

Next ==
  \/ \E i \in 1..(Len(burns) + 1), t \in 0..Horizon : Insert(i, t)
  \/ \E i \in 1..Len(burns) :
       Remove(i) \/ \E t \in 0..Horizon : Replace(i, t)
  \/ \E t \in 0..Horizon : SetFinal(t)
  \/ Recompute \/ Avoid \/ Prolong

Spec == Init /\ [][Next]_vars

Target(j) ==
  IF j = 2 * Len(burns) + 1 THEN desired ELSE burns[(j + 1) \div 2]
First ==
  LET S == {j \in 1..Len(segs) : segs[j] # Target(j)}
  IN  IF S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in S : j <= k

\* The count of anomalous segments tells where the first one is.
CountOk ==
  /\ Len(segs) = 2 * Len(burns) + 1
  /\ count = AnomalousSegments(Len(burns), First)
  /\ (status = "ok") = (count = 0)
\* The segments are joined, and the ones after an anomalous one are empty.
EmptyOk ==
  LET from(j) == IF j = 1 THEN 0 ELSE segs[j - 1]
  IN  \A j \in 1..Len(segs) :
        /\ segs[j] >= from(j)
        /\ segs[j] <= Target(j)
        /\ (First > 0 /\ j > First => segs[j] = from(j))
\* The result is the one that would be obtained from scratch, except that it may
\* have been obtained with a shorter ephemeris.
ScratchOk ==
  LET s == Compute([segs |-> <<0>>, count |-> 0, status |-> "ok",
                    tmax |-> tmax], burns, 1, desired, 0)
  IN  status # "deadline" => segs = s.segs /\ count = s.count
StepsOk ==
  LET from(j) == IF j = 1 THEN 0 ELSE segs[j - 1]
  IN  status = "steps" => segs[First] - from(First) = MaxLength
=============================================================================
