------------------------------- MODULE Ephemeris -------------------------------
(***************************************************************************)
(* An ephemeris integrates the motion of its bodies with a fixed step.     *)
(* Times are in steps since its initial time.  The trajectories of the     *)
(* bodies become known by batches of 8 steps.  Checkpoints are taken along *)
(* the way, the first one as soon as possible and then when enough time    *)
(* has elapsed since the last one; an ephemeris may be restored from a     *)
(* checkpoint and what came before is then reconstructed on demand,        *)
(* checkpoint by checkpoint, backwards.                                    *)
(*                                                                         *)
(* An ephemeris is a record:                                               *)
(*   inst: the last time to which the motion was integrated;               *)
(*   first: the first batch that is known, or would be;                    *)
(*   cps: the times of the checkpoints;                                    *)
(*   oldest: the oldest checkpoint that was reanimated, or -1 if the       *)
(*     ephemeris was constructed from scratch.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Batch == 8
MaxBetweenCheckpoints == 180  \* In days.

MaxOf(s) == CHOOSE a \in s : \A b \in s : a >= b
MinOf(s) == CHOOSE a \in s : \A b \in s : a <= b

NewEphemeris == [inst |-> 0, first |-> 0, cps |-> {}, oldest |-> -1]

\* The number of complete batches at time t, i.e., the batch that a point at
\* time t belongs to.
BatchOf(t) == t \div Batch
Empty(e) == BatchOf(e.inst) <= e.first
TMin(e) == Batch * e.first
TMax(e) == Batch * BatchOf(e.inst)
\* Whether time t/2 is covered by the trajectories.
Covers(e, t2) == ~Empty(e) /\ 2 * TMin(e) <= t2 /\ t2 <= 2 * TMax(e)

\* The time where the next checkpoint is taken when integrating from time t.
NextCheckpoint(cps, t, days) ==
  IF cps = {} THEN t + 1
  ELSE LET next == MaxOf(cps) + MaxBetweenCheckpoints \div days + 1
       IN IF next > t THEN next ELSE t + 1

\* The checkpoints after integrating from time t (exclusive) to time u.
CheckpointsTo(cps, t, u, days) ==
  LET next == NextCheckpoint(cps, t, days)
      period == MaxBetweenCheckpoints \div days + 1
  IN cps \cup {v \in next..u : (v - next) % period = 0}

\* The ephemeris after integrating to time u.
IntegrateTo(e, u, days) ==
  [e EXCEPT !.inst = u, !.cps = CheckpointsTo(@, e.inst, u, days)]

\* The time, in half steps, that must be covered after a prolongation to t2/2
\* with at most max steps, or an unlimited number if max is -1.
Desired(e, t2, max) ==
  IF max = -1 \/ t2 <= 2 * (e.inst + max) THEN t2 ELSE 2 * (e.inst + max)

\* The result of such a prolongation: it covers the desired time, and does
\* nothing more than completing the batch where it lies.
Prolonged(e, t2, max, days) ==
  LET desired == Desired(e, t2, max)
      \* The integration must first reach that time, and makes progress.
      reach == IF desired <= 2 * e.inst THEN e.inst + 1 ELSE desired \div 2
      \* The first batch that makes the ephemeris nonempty and goes that far.
      batch == MaxOf({e.first + 1, (desired + 2 * Batch - 1) \div (2 * Batch)})
  IN IF ~Empty(e) /\ 2 * TMax(e) >= desired
     THEN e
     ELSE IntegrateTo(e, MaxOf({reach, Batch * batch}), days)

\* The effect of writing the ephemeris on the ephemeris itself.
Written(e) == IF e.cps = {} THEN [e EXCEPT !.cps = {e.inst}] ELSE e

\* Reading an ephemeris written with the given checkpoints, for the time t2/2.
CanRead(cps, t2) == \E c \in cps : 2 * c <= t2
ReadAt(cps, t2) ==
  LET c == MaxOf({d \in cps : 2 * d <= t2})
  IN [inst |-> c, first |-> BatchOf(c), cps |-> cps, oldest |-> c]

\* The last checkpoint that must be reanimated to cover time t2/2.
Target(e, t2) ==
  IF \E c \in e.cps : 2 * c <= t2
  THEN MaxOf({c \in e.cps : 2 * c <= t2})
  ELSE MinOf(e.cps)

\* The states that may be reached by reanimating down to time t2/2.
Reanimations(e, t2) ==
  IF e.oldest = -1 THEN {e}
  ELSE {e} \cup
       {[e EXCEPT !.oldest = c, !.first = BatchOf(c)] :
          c \in {d \in e.cps : Target(e, t2) <= d /\ d <= e.oldest}}
\* The final one.
Reanimated(e, t2) ==
  IF e.oldest = -1 \/ Target(e, t2) >= e.oldest THEN e
  ELSE [e EXCEPT !.oldest = Target(e, t2), !.first = BatchOf(Target(e, t2))]
=============================================================================
