------------------------ MODULE ContinuousTrajectoryMC ------------------------
(* A trajectory o that is appended to and checkpointed, and a trajectory r  *)
(* that is read from it, appended the same points, and reanimated.          *)
EXTENDS ContinuousTrajectory

CONSTANTS MaxTime, Motions

VARIABLES o, r,
          data,    \* The motion chosen at each time.
          oldest   \* The checkpoint down to which r was reanimated, or -1.
vars == <<o, r, data, oldest>>

Init ==
  /\ o = NewContinuous
  /\ r = NewContinuous
  /\ data = <<>>
  /\ oldest = -1

\* A checkpoint is written for the first point.
AppendO ==
  /\ Len(data) < MaxTime
  /\ \E c \in Motions :
       /\ data' = Append(data, c)
       /\ LET x == AppendPoint(o, [t |-> Len(data) + 1, c |-> c])
          IN o' = IF x.cps = <<>> THEN WriteCheckpoint(x) ELSE x
  /\ UNCHANGED <<r, oldest>>
CheckpointO ==
  /\ CanWriteCheckpoint(o)
  /\ o' = WriteCheckpoint(o)
  /\ UNCHANGED <<r, data, oldest>>
Read ==
  /\ r = NewContinuous
  /\ CanWrite(o)
  /\ \E t \in 1..MaxTime :
       /\ CanRead(o, t)
       /\ r' = ReadResult(o, t)
       /\ oldest' = MaxOf(AtOrBefore(o, t))
  /\ UNCHANGED <<o, data>>
AppendR ==
  /\ oldest # -1
  /\ LastTime(r) < Len(data)
  /\ r' = AppendPoint(r, [t |-> LastTime(r) + 1, c |-> data[LastTime(r) + 1]])
  /\ UNCHANGED <<o, data, oldest>>
\* Appends the points of the motion up to time t.
RECURSIVE Extend(_, _)
Extend(x, t) ==
  IF LastTime(x) >= t THEN x
  ELSE Extend(AppendPoint(x, [t |-> LastTime(x) + 1, c |-> data[LastTime(x) + 1]]), t)
Reanimate ==
  /\ oldest # -1
  /\ AtOrBefore(r, oldest - 1) # {}
  /\ LET t == MaxOf(AtOrBefore(r, oldest - 1))
         p == Extend(RestoreFrom(NewContinuous, r, t), oldest)
     IN /\ CanPrepend(r, p)
        /\ r' = PrependResult(r, p)
        /\ oldest' = t
  /\ UNCHANGED <<o, data>>
Next == AppendO \/ CheckpointO \/ Read \/ AppendR \/ Reanimate
Spec == Init /\ [][Next]_vars

WellFormed == \A x \in {o, r} : Contiguous(x) /\ Lag(x)
\* Wherever both are evaluable, they are the same.
Agree ==
  \A i \in 1..Len(r.polys) : \A j \in 1..Len(o.polys) :
    r.polys[i].t = o.polys[j].t => r.polys[i].id = o.polys[j].id
Covers ==
  /\ oldest # -1 => r.first <= oldest
  /\ ~IsEmpty(r) => r.first >= o.first
\* A reanimation is always possible.
NoGap ==
  oldest # -1 /\ AtOrBefore(r, oldest - 1) # {} =>
    LET t == MaxOf(AtOrBefore(r, oldest - 1))
        p == Extend(RestoreFrom(NewContinuous, r, t), oldest)
    IN CanPrepend(r, p)
\* The values never change, and the span only grows.
Span(x) == {x.polys[i] : i \in 1..Len(x.polys)}
Stable ==
  [][/\ Span(o) \subseteq Span(o')
     /\ r # NewContinuous => Span(r) \subseteq Span(r') /\ r'.first <= r.first]_vars
===============================================================================
