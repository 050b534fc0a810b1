-------------------------------- MODULE Flows --------------------------------
(***************************************************************************)
(* Flows of trajectories in the field of an ephemeris.                     *)
(*                                                                         *)
(* The ephemeris covers the times up to `tmax` (in its steps), or none if  *)
(* that is -1.  Other times are in sixteenths of a step.                   *)
(*                                                                         *)
(* What one may rely on:                                                   *)
(* - the ephemeris is prolonged if and only if it doesn't cover the target *)
(*   already, and no further than needed or permitted;                     *)
(* - a flow with an adaptive step appends points with increasing times, no *)
(*   later than the target, at most as many as permitted; it is successful *)
(*   iff the last one is exactly at the target, and otherwise tells which  *)
(*   limit was hit;                                                        *)
(* - a flow with a fixed step appends the points of the grid, all of those *)
(*   that are no later than the target, once.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Ceil(a, b) == -((-a) \div b)

(***************************************************************************)
(* Prolongation to the time `t` by at most `limit` steps.  The trajectories *)
(* are extended by series of 8 steps, and the ephemeris may internally be  *)
(* up to a series ahead of `tmax`.                                         *)
(***************************************************************************)
Series == 8
ProlongOk(before, after, t, limit) ==
  LET t0 == Max2(before, 0) IN
  IF before >= 0 /\ 16 * before >= t
  THEN after = before
  ELSE /\ after >= before /\ after >= 0
       /\ after % Series = 0
       /\ 16 * after >= Min2(t, 16 * (t0 + limit))
       /\ after <= Max2(before, Min2(Ceil(t, 16), t0 + Series + limit))
                   + 2 * Series

(***************************************************************************)
(* Adaptive flow.  `f` is the request: the target t, the limit on the      *)
(* number of steps of the integrator (max) and of the ephemeris (limit),   *)
(* whether the thread was already stopped (stop), the position of the      *)
(* target with respect to the end of the trajectory (cmp), the coverage    *)
(* of the ephemeris before.  `r` is the result: the status, whether the    *)
(* thread was stopped meanwhile, the coverage afterwards, the number of    *)
(* points appended, and the position of the end with respect to the target *)
(* (cmp) and to the end of the ephemeris (end).                            *)
(***************************************************************************)
NoOp(f) == f.cmp = "eq"
\* The past is out of reach.
MayFlow(f) == f.cmp # "lt"

AdaptiveOk(f, r, wall) ==
  /\ r.others
  /\ r.prefix
  /\ IF NoOp(f)
     THEN r.code = "ok" /\ r.n = 0 /\ r.tmax = f.before
     ELSE /\ MayFlow(f) \/ (f.stop /\ r.code = "cancelled")
          /\ IF r.code = "cancelled"
             THEN r.stopped /\ (f.stop => r.n = 0)
             ELSE ~f.stop /\ ProlongOk(f.before, r.tmax, f.t, f.limit)
          /\ r.mono /\ r.within /\ r.close
          /\ r.n <= f.max
          /\ LET short == 16 * r.tmax < f.t
                 done == r.n > 0 /\ (IF short THEN r.end = "eq" ELSE r.cmp = "eq")
             IN  CASE r.code = "ok" -> done /\ ~short
                   [] r.code = "deadline" -> done /\ short
                   [] r.code = "steps" -> ~done /\ r.n = f.max
                   [] r.code = "vanishing" ->
                        ~done /\ Min2(16 * r.tmax, f.t) > wall
                   [] r.code = "cancelled" -> TRUE
                   [] OTHER -> FALSE

(***************************************************************************)
(* Fixed flow.  An instance `i` starts at the time `start`, with the step  *)
(* `step`, and it needs a number of `points` to start.  Its position p is  *)
(* in sixteenths of its step, which is also the step used for starting.    *)
(***************************************************************************)
Divisor == 16
StartupEnd(i) == Divisor * (i.points - 1)
Started(i) == i.p >= StartupEnd(i)
\* The position that corresponds to a time, rounded down.
Position(i, t) == (Divisor * (t - i.start)) \div i.step
At(i, t) == Divisor * (t - i.start) = i.p * i.step
Ahead(i, t) == Divisor * (t - i.start) > i.p * i.step

MayStep(i, t) == At(i, t) \/ Ahead(i, t) \/ (i.points > 1 /\ Started(i))

Reached(i, t) ==
  LET q == Position(i, t)
      startup == IF Started(i) THEN i.p
                 ELSE Min2(Max2(i.p, q), StartupEnd(i))
  IN  IF startup < StartupEnd(i) THEN startup
      ELSE Max2(startup, Divisor * (q \div Divisor))

FixedOk(i, f, r) ==
  /\ r.others /\ r.ok /\ r.close
  /\ MayStep(i, f.t)
  /\ r.p >= i.p
  /\ IF r.code = "cancelled"
     THEN /\ r.stopped
          /\ r.p <= Reached(i, f.t)
          \* Stopped at once, or at the end of the current step.
          /\ f.stop =>
               Len(r.ps) <= (IF 16 * Max2(f.before, 0) >= f.t THEN 1 ELSE 0)
     ELSE /\ r.code \in {"ok", "range"}
          \* If the thread is stopped during the startup, this isn't reported.
          /\ IF r.stopped /\ ~Started(i)
             THEN r.p <= Reached(i, f.t)
             ELSE r.p = Reached(i, f.t)
          /\ IF f.stop
             THEN 16 * Max2(f.before, 0) >= f.t \* Nothing to prolong.
             ELSE ProlongOk(f.before, r.tmax, f.t, 1000000)
          \* Collisions during the startup are ignored.
          /\ (r.must /\ (i.points = 1 \/ Started(i))) => r.code = "range"
          /\ r.code = "range" => r.may
  \* The points that are on the way, in order.
  /\ Len(r.ps) = (r.p \div Divisor) - (i.p \div Divisor)
  /\ \A j \in 1..Len(r.ps) : r.ps[j] = (i.p \div Divisor) + j
=============================================================================
