------------------------ MODULE DiscreteTrajectoryMC ------------------------
(***************************************************************************)
(* The algorithm: a time-to-segment map, which has an entry for the last   *)
(* segment that starts at a given time, is maintained incrementally by     *)
(* each operation and used to locate the segments.  All the sequences of   *)
(* operations on two trajectories, for a few times.                        *)
(***************************************************************************)
EXTENDS DiscreteTrajectory, TLC
CONSTANTS MaxTime, MaxSegments
VARIABLES a, b, \* Each with the segments (s) and the map (m).
          ghost \* The result that the specification prescribes for a.
vars == <<a, b, ghost>>

P(t) == <<t, 0, 0>>
Ts == 1..MaxTime

\* The map as defined by the data structure invariant.
Starts(s) == {Time(Head(s[i])) : i \in Nonempty(s)}
Derived(s) ==
  [t \in Starts(s) |-> MaxOf({i \in Nonempty(s) : Time(Head(s[i])) = t})]

\* The segment in which to look for t, 0 if there is none.
FindSegment(x, t) ==
  LET S == {u \in DOMAIN x.m : u <= t} IN IF S = {} THEN 0 ELSE x.m[MaxOf(S)]
LeftEndpoint(x, t) == MaxOf({u \in DOMAIN x.m : u <= t})

Assign(m, t, i) == (t :> i) @@ m
Emplace(m, t, i) == m @@ (t :> i)
Restrict(m, S) == [t \in (DOMAIN m) \cap S |-> m[t]]
Less(t) == {u \in 0..MaxTime : u < t}
AtMost(t) == {u \in 0..MaxTime : u <= t}
More(t) == {u \in 0..MaxTime : u > t}
NoMap == [t \in {} |-> 0]

\* Appends.
DoAppend(x, t) ==
  IF DOMAIN x.m = {}
  THEN [s |-> [x.s EXCEPT ![Len(x.s)] = <<P(t)>>], m |-> t :> Len(x.s)]
  ELSE LET i == FindSegment(x, t)
       IN [s |-> IF Time(Head(x.s[i])) = t THEN x.s
                 ELSE [x.s EXCEPT ![i] = Append(@, P(t))],
           m |-> x.m]

DoNewSegment(x) ==
  IF Last(x.s) = <<>> THEN [s |-> Append(x.s, <<>>), m |-> x.m]
  ELSE LET p == Last(Last(x.s))
       IN [s |-> Append(x.s, <<p>>), m |-> Assign(x.m, Time(p), Len(x.s) + 1)]

Shift(m, d) == [t \in DOMAIN m |-> m[t] + d]
\* After the segments of `to` from the index i on have been taken from `from`,
\* where they were at the index j.
AdjustedTo(to, m, i, j) ==
  IF Last(to) = <<>> THEN NoMap
  ELSE LET from == [s |-> <<>>, m |-> m]
           t == Time(Front(SubSeq(to, i, Len(to))))
           S == {u \in DOMAIN m : u >= LeftEndpoint(from, t)}
       IN Shift(Restrict(m, S), i - j)
AdjustedFrom(s, to, m, i) ==
  IF Last(to) = <<>> THEN m
  ELSE LET from == [s |-> <<>>, m |-> m]
           t == Time(Front(SubSeq(to, i, Len(to))))
           kept == Restrict(m, Less(LeftEndpoint(from, t)))
       IN IF s # <<>> /\ Last(s) # <<>>
          THEN Assign(kept, Time(Head(Last(s))), Len(s)) ELSE kept

DoDetach(x, i) ==
  LET to == SubSeq(x.s, i, Len(x.s))
      s == SubSeq(x.s, 1, i - 1)
  IN <<[s |-> s, m |-> AdjustedFrom(s, to, x.m, 1)],
       [s |-> to, m |-> AdjustedTo(to, x.m, 1, i)]>>

DoAttach(x, y) ==
  LET tx == Time(Last(Last(x.s)))
      m1 == IF y.m[MinOf(DOMAIN y.m)] = 1
            THEN Restrict(y.m, More(MinOf(DOMAIN y.m))) ELSE y.m
      y1 == IF tx < Time(Front(y.s))
            THEN [s |-> [y.s EXCEPT ![1] = <<P(tx)>> \o @],
                  m |-> Emplace(m1, tx, 1)]
            ELSE y
      s == x.s \o y1.s
      n == Len(x.s)
  IN IF DOMAIN x.m = {} THEN y
     ELSE [s |-> s, m |-> AdjustedTo(s, y1.m, n + 1, 1) @@ x.m]

DoDelete(x, i) ==
  LET s == SubSeq(x.s, 1, i - 1)
  IN [s |-> s,
      m |-> IF Last(s) = <<>> THEN NoMap
            ELSE LET t == Time(Head(Last(s)))
                 IN Restrict(Assign(x.m, t, Len(s)), AtMost(t))]

RECURSIVE StartOfRun(_, _, _)
StartOfRun(s, i, t) ==
  IF i = 1 THEN 1
  ELSE IF s[i - 1] = <<>> THEN i
  ELSE IF Time(Head(s[i - 1])) # t THEN i
  ELSE StartOfRun(s, i - 1, t)
DoForgetAfter(x, t) ==
  LET f == FindSegment(x, t)
      left == LeftEndpoint(x, t)
      i == StartOfRun(x.s, f, t)
      si == Before(x.s[i], t)
  IN IF f = 0 THEN [s |-> New, m |-> NoMap]
     ELSE IF si = <<>>
     THEN IF i = 1 THEN [s |-> <<si>>, m |-> Restrict(x.m, Less(left))]
          ELSE [s |-> SubSeq(x.s, 1, i - 1), m |-> Restrict(x.m, Less(left))]
     ELSE [s |-> Append(SubSeq(x.s, 1, i - 1), si),
           m |-> Restrict(x.m, AtMost(left))]

DoForgetBefore(x, t) ==
  LET i == FindSegment(x, t)
      left == LeftEndpoint(x, t)
      s == [j \in 1..Len(x.s) |-> IF j <= i THEN From(x.s[j], t) ELSE x.s[j]]
      m == Restrict(x.m, More(left))
  IN IF i = 0 THEN x
     ELSE [s |-> s,
           m |-> IF s[i] = <<>> THEN m ELSE Emplace(m, Time(Head(s[i])), i)]

RECURSIVE MergePairs(_, _, _)
MergePairs(x, y, i) ==
  IF i > Len(y.s) \/ i > Len(x.s) THEN
    IF i <= Len(y.s)
    THEN LET s == x.s \o SubSeq(y.s, i, Len(y.s))
         IN [s |-> s, m |-> AdjustedTo(s, y.m, i, i) @@ x.m]
    ELSE [s |-> x.s,
          m |-> IF i <= Len(x.s)
                THEN LET RECURSIVE Rest(_, _)
                         Rest(m, j) ==
                           IF j > Len(x.s) THEN m
                           ELSE Rest(IF x.s[j] = <<>> THEN m
                                     ELSE Assign(m, Time(Head(x.s[j])), j),
                                     j + 1)
                     IN Rest(x.m, i)
                ELSE x.m]
  ELSE
    LET old == x.s[i]
        new == MergeSegment(old, y.s[i])
        m1 == IF old # <<>> /\ Time(Head(new)) < Time(Head(old)) /\
                 Time(Head(old)) \in DOMAIN x.m /\ x.m[Time(Head(old))] = i
              THEN Restrict(x.m, (0..MaxTime) \ {Time(Head(old))}) ELSE x.m
        m2 == IF new # <<>> THEN Assign(m1, Time(Head(new)), i) ELSE m1
    IN MergePairs([s |-> [x.s EXCEPT ![i] = new], m |-> m2], y, i + 1)

Init ==
  /\ a = [s |-> New, m |-> NoMap]
  /\ b = [s |-> New, m |-> NoMap]
  /\ ghost = New

\* The operation is only performed if it is permitted.
Do(result, x) ==
  /\ result.ok
  /\ Len(result.segs) <= MaxSegments
  /\ ghost' = result.segs
  /\ a' = x

Next ==
  \/ \E t \in Ts : Do(AppendResult(a.s, P(t)), DoAppend(a, t)) /\ UNCHANGED b
  \/ Do(NewSegmentResult(a.s), DoNewSegment(a)) /\ UNCHANGED b
  \/ \E i \in 2..Len(a.s) :
       /\ Do(Some(DetachKept(a.s, i)), DoDetach(a, i)[1])
       /\ b' = DoDetach(a, i)[2]
  \/ /\ Do(AttachResult(a.s, b.s), DoAttach(a, b))
     /\ b' = [s |-> New, m |-> NoMap]
  \/ \E i \in 2..Len(a.s) :
       Do(DeleteResult(a.s, i), DoDelete(a, i)) /\ UNCHANGED b
  \/ \E t \in 0..MaxTime :
       \/ Do(ForgetAfterResult(a.s, t), DoForgetAfter(a, t)) /\ UNCHANGED b
       \/ Do(ForgetBeforeResult(a.s, t), DoForgetBefore(a, t)) /\ UNCHANGED b
  \/ /\ Do(MergeResult(a.s, b.s), MergePairs(a, b, 1))
     /\ b' = [s |-> New, m |-> NoMap]
  \/ b' = a /\ UNCHANGED <<a, ghost>>
  \/ a' = b /\ b' = a /\ ghost' = b.s

Spec == Init /\ [][Next]_vars

\* The algorithm implements the specification.
Refinement == a.s = ghost
MapInvariant == a.m = Derived(a.s) /\ b.m = Derived(b.s)
ConsistencyInvariant == Consistent(a.s) /\ Consistent(b.s)

\* Lookups through the map agree with the timeline.
LookupInvariant ==
  LET f == Flat(a.s)
  IN /\ Increasing(f)
     /\ \A t \in 0..MaxTime + 1 :
          LET i == FindSegment(a, t)
          IN /\ (IF i = 0 THEN End ELSE Find(a.s[i], t)) = Find(f, t)
             /\ (IF i = 0 THEN MinOrEnd(TimesOf(f)) ELSE LowerBound(a.s[i], t))
                  = LowerBound(f, t)
             /\ (IF i = 0 THEN MinOrEnd(TimesOf(f)) ELSE UpperBound(a.s[i], t))
                  = UpperBound(f, t)

\* Forgetting preserves all the points on the other side.
ForgetInvariant ==
  \A t \in 0..MaxTime :
    LET before == Flat(ForgetAfterResult(a.s, t).segs)
        from == Flat(ForgetBeforeResult(a.s, t).segs)
    IN /\ \/ before = Before(Flat(a.s), t)
          \/ /\ before = Before(Flat(a.s), t + 1)
             /\ \E i \in 1..Len(a.s) - 1 : Len(a.s[i]) > 1 /\ Time(Last(a.s[i])) = t
       /\ from = From(Flat(a.s), t)

\* Splitting and putting together again is the identity.
SplitInvariant ==
  /\ \A i \in 2..Len(a.s) :
       a.s[i] # <<>> /\ ~Empty(SubSeq(a.s, 1, i - 1)) =>
         AttachResult(DetachKept(a.s, i), DetachDetached(a.s, i)).segs = a.s
  /\ \A t \in 0..MaxTime :
       LET kept == ForgetAfterResult(a.s, t).segs
           rest == ForgetBeforeResult(a.s, t).segs
       IN /\ MergeResult(rest, kept).segs = a.s
          /\ ~Empty(a.s) => Flat(MergeResult(kept, rest).segs) = Flat(a.s)
==============================================================================
