-------------------------- MODULE DownsamplingTrace --------------------------
(* Validates executions of the real code against Downsampling. *)
EXTENDS Downsampling, TraceCommon

VARIABLES x,      \* The trajectories.
          pending \* The times appended to the trajectory under observation.
vars == <<x, pending>>

K == 1..3
ToSet(s) == {s[i] : i \in 1..Len(s)}

TraceInit ==
  /\ CommonInit
  /\ x = [k \in K |-> NewTraj]
  /\ pending = <<>>

Set(k, y) == x' = [x EXCEPT ![k] = y] /\ UNCHANGED pending

TimesSeq(s) == [i \in 1..Len(s) |-> Time(s[i])]

ObsOk(y, o) ==
  /\ Len(o.segs) = Len(y.segs)
  /\ \A i \in 1..Len(o.segs) : o.segs[i] = TimesSeq(y.segs[i])
  /\ ToSet(o.dense) = y.dense
  /\ ToSet(o.diff) \cap y.exact = {}
  /\ o.worst <= MaxDeviation(y)

\* The trajectory after the pending appends.
Appended(y, ts, o) ==
  LET n == Len(y.segs)
  IN [y EXCEPT !.segs = [@ EXCEPT ![n] = Points(o.segs[n])],
               !.dense = @ \cup ToSet(ts),
               !.exact = @ \cup ToSet(ts)]

TraceNext ==
  \/ IsEvent("new") /\ Set(Event.k, NewTraj)
  \/ /\ IsEvent("downsample")
     /\ Set(Event.k, [x[Event.k] EXCEPT !.on = [@ EXCEPT ![Len(@)] = Event.on]])
  \/ /\ IsEvent("appends")
     /\ pending = <<>>
     /\ pending' = Event.ts
     /\ UNCHANGED x
  \/ /\ IsEvent("obs")
     /\ LET y == x[Event.k]
            n == Len(y.segs)
            z == Appended(y, pending, Event)
        IN IF pending = <<>>
           THEN ObsOk(y, Event) /\ UNCHANGED vars
           ELSE /\ Len(Event.segs) = n
                /\ MayRetain(TimesSeq(y.segs[n]), pending, y.on[n],
                             Cfg.linear /\ y.loss = 0, Event.segs[n])
                /\ ObsOk(z, Event)
                /\ x' = [x EXCEPT ![Event.k] = z]
                /\ pending' = <<>>
  \/ IsEvent("newsegment") /\ Set(Event.k, NewSegmentTraj(x[Event.k]))
  \/ IsEvent("forgetafter") /\ Set(Event.k, ForgetAfterTraj(x[Event.k], Event.t))
  \/ IsEvent("forgetbefore") /\ Set(Event.k, ForgetBeforeTraj(x[Event.k], Event.t))
  \/ /\ IsEvent("merge")
     /\ x' = [x EXCEPT ![Event.k] = MergeTraj(x[Event.k], x[Event.m]),
                       ![Event.m] = NewTraj]
     /\ UNCHANGED pending
  \/ /\ IsEvent("detach")
     /\ x' = [x EXCEPT ![Event.k] = DetachKeptTraj(x[Event.k], Event.i),
                       ![Event.m] = DetachedTraj(x[Event.k], Event.i)]
     /\ UNCHANGED pending
  \/ /\ IsEvent("attach")
     /\ x' = [x EXCEPT ![Event.k] = AttachTraj(x[Event.k], x[Event.m]),
                       ![Event.m] = NewTraj]
     /\ UNCHANGED pending
  \/ IsEvent("clear") /\ Set(Event.k, NewTraj)
  \* The reading itself is checked before it takes effect.
  \/ /\ IsEvent("serialize")
     /\ l < Len(Trace)
     /\ Trace[l + 1].e = "restored"
     /\ LET r == Trace[l + 1]
        IN /\ r.same
           /\ SameAfterRead(x[Event.k], Event.first, ToSet(Event.exact))
                \subseteq ToSet(r.equal)
           /\ r.dq <= 1000
           /\ r.dv <= 1000
           /\ r.stable
     /\ Set(Event.m, ReadTraj(x[Event.k], Event.first, ToSet(Event.exact)))
  \/ IsEvent("restored") /\ UNCHANGED vars
  \/ IsEvent("end") /\ UNCHANGED vars

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tr, l>>
==============================================================================
