----------------------- MODULE DiscreteTrajectoryTrace -----------------------
(* Validates executions of the real code against DiscreteTrajectory. *)
EXTENDS DiscreteTrajectory, TraceCommon

VARIABLES trajs, \* The segments of each trajectory.
          dead   \* Whether the operation under way is not permitted.
vars == <<trajs, dead>>

K == 1..3

TraceInit ==
  /\ CommonInit
  /\ trajs = [k \in K |-> New]
  /\ dead = FALSE

\* The trajectory k becomes that of r, and the trajectory m is consumed.
Set(k, r) ==
  /\ ~dead
  /\ dead' = ~r.ok
  /\ trajs' = IF r.ok THEN [trajs EXCEPT ![k] = r.segs] ELSE trajs
Set2(k, m, r) ==
  /\ ~dead
  /\ dead' = ~r.ok
  /\ trajs' = IF r.ok THEN [trajs EXCEPT ![k] = r.segs, ![m] = New] ELSE trajs

Times(s) == [i \in 1..Len(s) |-> Time(s[i])]
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
AtOrEnd(s, i) == IF i = Len(s) THEN End ELSE Time(s[i + 1])

LookupOk(segs, f, q) ==
  IF "s" \in DOMAIN q
  THEN /\ q.f = OrEnd(Find(segs[q.s], q.q), segs, q.s)
       /\ q.l = OrEnd(LowerBound(segs[q.s], q.q), segs, q.s)
       /\ q.u = OrEnd(UpperBound(segs[q.s], q.q), segs, q.s)
  ELSE /\ q.f = Find(f, q.q)
       /\ q.l = LowerBound(f, q.q)
       /\ q.u = UpperBound(f, q.q)

ArithOk(f, a) ==
  LET n == Len(f)
  IN /\ a.ta = AtOrEnd(f, a.a)
     /\ a.tb = AtOrEnd(f, a.b)
     /\ a.tc = a.tb
     /\ a.td = a.tb
     /\ a.te = a.tb
     /\ a.tf = a.tb
     /\ a.d = (IF a.a > a.b THEN a.a - a.b ELSE a.b - a.a)
     /\ a.inc = (IF a.a = n THEN End ELSE AtOrEnd(f, a.a + 1))
     /\ a.dec = (IF a.b = 0 THEN End ELSE AtOrEnd(f, a.b - 1))
     /\ a.cmp = <<a.a = a.b, a.a # a.b, a.a < a.b, a.a > a.b, a.a <= a.b,
                  a.a >= a.b>>

Abs(x) == IF x < 0 THEN -x ELSE x
EvalOk(f, q, e) ==
  /\ e[1] = 1000 * InterpolatedPosition(f, q)
  /\ e[2] = 3000000
  /\ e[4] = 1
  /\ IF q \in TimesOf(f) THEN e[3] = 1000000 * PointAt(f, q)[3]
     ELSE LET h4 == 4 * (Time(UpperPoint(f, q)) - Time(LowerPoint(f, q)))
          IN Abs(e[3] - (InterpolatedVelocity4h(f, q) * 1000000) \div h4) <= 1

SegmentOk(segs, i, o) ==
  LET s == segs[i]
  IN /\ o.n = Len(s)
     /\ o.empty = (s = <<>>)
     /\ o.p = s
     /\ o.r = Reverse(Times(s))
     /\ o.end = SegmentEnd(segs, i)
     /\ o.tmin = (IF s = <<>> THEN 1000000 ELSE Time(Head(s)))
     /\ o.tmax = (IF s = <<>> THEN -1000000 ELSE Time(Last(s)))

ObsOk(segs, o) ==
  LET f == Flat(segs)
  IN /\ o.same
     /\ o.pts = f
     /\ o.rpts = Reverse(Times(f))
     /\ o.size = Len(f)
     /\ o.empty = (f = <<>>)
     /\ o.front = (IF f = <<>> THEN <<>> ELSE f[1])
     /\ o.back = (IF f = <<>> THEN <<>> ELSE f[Len(f)])
     /\ o.tmin = (IF f = <<>> THEN 1000000 ELSE Time(f[1]))
     /\ o.tmax = (IF f = <<>> THEN -1000000 ELSE Time(f[Len(f)]))
     /\ Len(o.segs) = Len(segs)
     /\ \A i \in 1..Len(segs) : SegmentOk(segs, i, o.segs[i])
     /\ \A i \in 1..Len(o.look) : LookupOk(segs, f, o.look[i])
     /\ \A i \in 1..Len(o.arith) : ArithOk(f, o.arith[i])
     /\ \A i \in 1..Len(o.eval) :
          /\ EvalOk(f, o.eval[i].q, o.eval[i].e)
          /\ o.eval[i].s # <<>> => o.eval[i].s = o.eval[i].e

OpNext ==
  \/ IsEvent("new") /\ Set(Event.k, Some(New))
  \/ /\ IsEvent("append")
     /\ Set(Event.k, AppendResult(trajs[Event.k], <<Event.t, Event.x, Event.v>>))
  \/ IsEvent("newsegment") /\ Set(Event.k, NewSegmentResult(trajs[Event.k]))
  \/ /\ IsEvent("detach")
     /\ ~dead
     /\ trajs' = [trajs EXCEPT ![Event.k] = DetachKept(trajs[Event.k], Event.i),
                               ![Event.m] = DetachDetached(trajs[Event.k], Event.i)]
     /\ UNCHANGED dead
  \/ /\ IsEvent("attach")
     /\ Set2(Event.k, Event.m, AttachResult(trajs[Event.k], trajs[Event.m]))
  \/ IsEvent("delete") /\ Set(Event.k, DeleteResult(trajs[Event.k], Event.i))
  \/ /\ IsEvent("forgetafter")
     /\ IF Event.it /\ Event.t = End THEN Set(Event.k, Some(trajs[Event.k]))
        ELSE Set(Event.k, ForgetAfterResult(trajs[Event.k], Event.t))
  \/ /\ IsEvent("forgetbefore")
     /\ IF Event.it /\ Event.t = End THEN Set(Event.k, ClearResult(trajs[Event.k]))
        ELSE Set(Event.k, ForgetBeforeResult(trajs[Event.k], Event.t))
  \/ IsEvent("clear") /\ Set(Event.k, ClearResult(trajs[Event.k]))
  \/ /\ IsEvent("merge")
     /\ Set2(Event.k, Event.m, MergeResult(trajs[Event.k], trajs[Event.m]))
  \/ IsEvent("move") /\ Set(Event.k, Some(trajs[Event.k]))
  \/ /\ IsEvent("clone")
     /\ Set(Event.m, Some(trajs[Event.k]))
  \/ /\ IsEvent("serialize")
     /\ Event.full => Event.last = End
     /\ LET b == IF Event.full /\ ~Empty(trajs[Event.k])
                 THEN Time(Front(trajs[Event.k])) ELSE Event.first
        IN Set(Event.m, ReadResult(trajs[Event.k], b, Event.last))
  \/ /\ IsEvent("restored")
     /\ ~dead
     /\ Event.stable
     /\ Event.tracked =
          [i \in 1..Len(Trace[l - 1].tracked) |->
             TrackedResult(Trace[l - 1].tracked[i], trajs[Event.m])]
     /\ UNCHANGED vars
  \/ IsEvent("status") /\ ~dead /\ Event.ok /\ UNCHANGED vars
  \/ /\ IsEvent("obs")
     /\ ~dead
     /\ ObsOk(trajs[Event.k], Event)
     /\ UNCHANGED vars
  \/ (IsEvent("died") \/ IsEvent("crash")) /\ dead /\ UNCHANGED vars
  \/ IsEvent("end") /\ ~dead /\ UNCHANGED vars

TraceNext == OpNext
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tr, l>>
=============================================================================
