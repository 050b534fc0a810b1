---------------------------- MODULE IntegratorsMC ----------------------------
(* Instalments: two instances of the same integrator that are given         *)
(* different sequences of targets compute the same points.                  *)
EXTENDS Integrators

CONSTANTS Points, Steps

VARIABLES i,   \* The instances.
          log, \* For each instance, the points appended, in order.
          exact

vars == <<i, log, exact>>

Init ==
  /\ i = [k \in 1..2 |-> NewInstance]
  /\ log = [k \in 1..2 |-> <<>>]
  /\ exact \in BOOLEAN

Range(a, b) == [n \in 1..(b - a + 1) |-> a + n - 1]

Solve(k, tf) ==
  /\ MaySolve(i[k], tf, exact, Points)
  /\ LET q == Reached(i[k], tf, Points)
         a == (i[k].p \div Divisor) + 1
     IN  /\ i' = [i EXCEPT ![k].p = q]
         /\ log' = [log EXCEPT ![k] = @ \o Range(a, q \div Divisor)]
  /\ UNCHANGED exact

Clone ==
  /\ i' = [i EXCEPT ![2] = i[1]]
  /\ log' = [log EXCEPT ![2] = log[1]]
  /\ UNCHANGED exact

Next ==
  \/ \E k \in 1..2, tf \in 0..8 * Steps : Solve(k, tf)
  \/ Clone

Spec == Init /\ [][Next]_vars

\* All the points, in order, exactly once, up to the position.
Complete ==
  \A k \in 1..2 : log[k] = Range(1, i[k].p \div Divisor)

\* Between steps only during the startup.
OnGrid ==
  \A k \in 1..2 : ~Started(i[k], Points) \/ i[k].p % Divisor = 0

\* The results depend on the position only.
Functional == i[1].p = i[2].p => log[1] = log[2]

\* A single integration to the same target leads to the same position or, when
\* the instance is already past it, to a previous position.
OneGo ==
  \A k \in 1..2, tf \in 1..8 * Steps :
    (MaySolve(i[k], tf, exact, Points) /\ Ahead(i[k], tf, exact)) =>
      Reached(i[k], tf, Points) =
        Max2(i[k].p, Reached(NewInstance, tf, Points))

Monotonic == [][\A k \in 1..2 : i'[k].p >= i[k].p \/ i'[k] = i[1]]_vars
=============================================================================
