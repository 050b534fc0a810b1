----------------------- MODULE ContinuousTrajectoryTrace -----------------------
(* Validates executions of the real code against ContinuousTrajectory.  The *)
(* values of the polynomials are recorded when they are first observed, and *)
(* must always be the same for the same history.                            *)
EXTENDS ContinuousTrajectory, TraceCommon

VARIABLES x,      \* The trajectories.
          known,  \* The values observed, a set of <<history, hash>>.
          dead    \* Whether the last operation was forbidden.
vars == <<x, known, dead>>

K == 1..3

TraceInit ==
  /\ CommonInit
  /\ x = [k \in K |-> NewContinuous]
  /\ known = {}
  /\ dead = FALSE

Set(k, y) == x' = [x EXCEPT ![k] = y] /\ UNCHANGED <<known, dead>>
\* The operation is performed if it is allowed, otherwise it dies.
If(ok, k, y) ==
  IF ok THEN x' = [x EXCEPT ![k] = y] /\ UNCHANGED <<known, dead>>
  ELSE dead' = TRUE /\ UNCHANGED <<x, known>>
Ask(ok) == IF ok THEN UNCHANGED vars ELSE dead' = TRUE /\ UNCHANGED <<x, known>>

ObsOk(y, o) ==
  /\ o.empty = IsEmpty(y)
  /\ IF IsEmpty(y) THEN o.min = "+inf" /\ o.max = "-inf"
     ELSE o.min = ToString(TMin(y)) /\ o.max = ToString(TMax(y))
  /\ Len(o.polys) = Len(y.polys)
  /\ \A i \in 1..Len(o.polys) :
       LET p == o.polys[i]
           q == y.polys[i]
           c == q.id[1][2][1]
       IN /\ p.agree
          \* If there is a single smooth motion the polynomial is accurate.
          /\ (/\ c # 3
              /\ \A b \in 1..Len(q.id) : \A j \in 1..Len(q.id[b][2]) :
                   q.id[b][2][j] = c) => p.close
          /\ \A v \in known : v[1] = q.id => v[2] = p.hash

NewlyKnown(y, o) == {<<y.polys[i].id, o.polys[i].hash>> : i \in 1..Len(o.polys)}

TraceNext ==
  \/ /\ ~dead
     /\ \/ IsEvent("new") /\ Set(Event.k, NewContinuous)
        \/ /\ IsEvent("append")
           /\ If(CanAppend(x[Event.k], Event.ps[1].t), Event.k,
                 AppendPoints(x[Event.k], Event.ps))
        \/ /\ IsEvent("obs")
           /\ ObsOk(x[Event.k], Event)
           /\ known' = known \cup NewlyKnown(x[Event.k], Event)
           /\ UNCHANGED <<x, dead>>
        \* Times are in eighths.
        \/ /\ IsEvent("evaluate")
           /\ Ask(~IsEmpty(x[Event.k]) /\ 8 * TMin(x[Event.k]) <= Event.t8 /\
                  Event.t8 <= 8 * TMax(x[Event.k]))
        \/ /\ IsEvent("checkpoint")
           /\ CanWriteCheckpoint(x[Event.k])
           /\ Set(Event.k, WriteCheckpoint(x[Event.k]))
        \/ /\ IsEvent("restore")
           /\ IF Event.t \in CheckpointTimes(x[Event.m])
              THEN Event.ok /\ Set(Event.k, RestoreFrom(x[Event.k], x[Event.m], Event.t))
              ELSE ~Event.ok /\ UNCHANGED vars
        \/ /\ IsEvent("prepend")
           /\ IF CanPrepend(x[Event.k], x[Event.m])
              THEN /\ x' = [x EXCEPT ![Event.k] = PrependResult(@, x[Event.m]),
                                     ![Event.m] = NewContinuous]
                   /\ UNCHANGED <<known, dead>>
              ELSE dead' = TRUE /\ UNCHANGED <<x, known>>
        \/ /\ IsEvent("serialize")
           /\ If(CanWrite(x[Event.k]) /\ CanRead(x[Event.k], Event.t), Event.m,
                 ReadResult(x[Event.k], Event.t))
        \* The checkpoints, from the message.
        \/ /\ IsEvent("checkpoints")
           /\ Event.ts = [i \in 1..Len(x[Event.k].cps) |-> x[Event.k].cps[i].t]
           /\ UNCHANGED vars
        \/ IsEvent("end") /\ UNCHANGED vars
  \/ dead /\ IsEvent("died") /\ UNCHANGED vars

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tr, l>>
\* The trajectories that the scenarios construct have no gaps.
TraceInv == \A k \in K : Contiguous(x[k]) /\ Lag(x[k])
================================================================================
