-------------------------------- MODULE FlowsMC --------------------------------
(***************************************************************************)
(* The adaptive flow, as it is done: prolong the ephemeris, integrate      *)
(* towards whatever can be reached, translate the result; checked against  *)
(* the contract of Flows.  The times are multiples of `Unit` sixteenths.   *)
(***************************************************************************)
EXTENDS Flows, TLC

CONSTANTS T,       \* The latest target, in units.
          Unit,
          Walls    \* In units, where the acceleration may be singular.

Times == 0..T

VARIABLES tmax, inst,  \* The ephemeris, in steps.
          last,        \* The end of the trajectory.
          wall,
          f, r,        \* The request and the result.
          pc, tf, n
vars == <<tmax, inst, last, wall, f, r, pc, tf, n>>

None == [code |-> ""]

Init ==
  /\ tmax = -1 /\ inst = 0
  /\ last \in Times
  /\ wall \in Walls
  /\ f = None /\ r = None
  /\ pc = "idle" /\ tf = 0 /\ n = 0

Cmp(a, b) == IF a < b THEN "lt" ELSE IF a = b THEN "eq" ELSE "gt"

Now == IF tmax = -1 THEN 0 ELSE tmax

\* The trajectories end at the last complete series.
Desired(t, limit) == Min2(t * Unit, 16 * (inst + limit))
Prolonged(t, limit) ==
  LET needed == Ceil(Max2(Desired(t, limit), 1), 16)
      goal == Max2(needed, inst)
  IN  Series * Ceil(goal, Series)

Request ==
  /\ pc = "idle" /\ r = None
  /\ \E t \in Times, max \in 1..2, limit \in {1, 3, 100} :
       /\ t >= last
       /\ (t # last => limit = 100 \/ last * Unit < 16 * tmax)
       /\ f' = [t |-> t * Unit, max |-> max, limit |-> limit, stop |-> FALSE,
                cmp |-> Cmp(t, last), before |-> tmax]
       /\ IF t = last
          THEN /\ r' = [code |-> "ok", n |-> 0, tmax |-> tmax, cmp |-> "eq",
                        end |-> "", stopped |-> FALSE]
               /\ UNCHANGED <<tmax, inst, pc, tf, n>>
          ELSE /\ tmax' = (IF tmax >= 0 /\ 16 * tmax >= t * Unit
                           THEN tmax
                           ELSE Prolonged(t, limit))
               /\ inst' = Max2(inst, tmax')
               /\ tf' = Min2(t * Unit, 16 * tmax')
               /\ n' = 0
               /\ pc' = "step"
               /\ r' = None
  /\ UNCHANGED <<last, wall>>

Result(code) ==
  [code |-> code, n |-> n', tmax |-> tmax, cmp |-> Cmp(last' * Unit, f.t),
   end |-> Cmp(last' * Unit, 16 * tmax), stopped |-> FALSE]

\* An accepted step of the integrator.
Step(t) ==
  /\ pc = "step"
  /\ t > last /\ t * Unit <= tf /\ t <= wall
  /\ last' = t /\ n' = n + 1
  /\ IF t * Unit = tf
     THEN /\ pc' = "idle"
          /\ r' = Result(IF tf = f.t THEN "ok" ELSE "deadline")
     ELSE IF n' = f.max
     THEN pc' = "idle" /\ r' = Result("steps")
     ELSE pc' = "step" /\ r' = None
  /\ UNCHANGED <<tmax, inst, wall, f, tf>>

Vanish ==
  /\ pc = "step"
  /\ wall * Unit < tf
  /\ UNCHANGED <<last, n, tmax, inst, wall, f, tf>>
  /\ pc' = "idle"
  /\ r' = Result("vanishing")

\* The result has been used.
Return ==
  /\ pc = "idle" /\ r # None
  /\ r' = None
  /\ UNCHANGED <<tmax, inst, last, wall, f, pc, tf, n>>

Next == Request \/ (\E t \in Times : Step(t)) \/ Vanish \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* The assumptions about the observations that the model doesn't represent.
Observed == r @@ [others |-> TRUE, prefix |-> TRUE, mono |-> TRUE,
                  within |-> TRUE, close |-> TRUE]

Contract == r # None => AdaptiveOk(f, Observed, wall * Unit)

\* OK iff the trajectory ends at the target.
OkIffThere == r # None => (r.code = "ok" <=> last * Unit = f.t)
NeverBeyond == r # None => last * Unit <= f.t /\ (r.n > 0 => last * Unit <= 16 * tmax)
Forward == [][last' >= last /\ tmax' >= tmax]_vars
Terminates == (pc = "step") ~> (pc = "idle")
=============================================================================
