----------------------------- MODULE Integrators -----------------------------
(***************************************************************************)
(* Fixed-step integrators.                                                 *)
(*                                                                         *)
(* An instance is at a position which is a number of sixteenths of a step  *)
(* since the initial time, counted in the direction of the integration     *)
(* (see also the constants below).  A one-step method is always at a       *)
(* multiple of a step; a linear multistep method first computes its        *)
(* starting points with a step sixteen times smaller, and while it does so *)
(* it may stop between two steps.                                          *)
(*                                                                         *)
(* A target is a number of eighths of a step.  If `exact`, the target is   *)
(* exactly on the grid; otherwise it is slightly after the grid.           *)
(*                                                                         *)
(* What is expected of `Solve`: it appends all the points of the grid that *)
(* follow the last one and are not after the target, in order, exactly     *)
(* once; an instance may be taken to some time in one go or by instalments *)
(* and the points are the same.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Divisor \* The number of startup steps in a step.

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

NewInstance == [p |-> 0]

\* The position where the startup ends, for a method that needs `points`.
StartupEnd(points) == Divisor * (points - 1)

Started(i, points) == i.p >= StartupEnd(points)

\* True if the target is strictly after the position.
Ahead(i, tf, exact) ==
  LET t == tf * (Divisor \div 8) IN IF exact THEN t > i.p ELSE t >= i.p

\* Instances refuse to integrate backward, except for linear multistep ones,
\* which do nothing once they are started.
MaySolve(i, tf, exact, points) ==
  \/ Ahead(i, tf, exact)
  \/ points > 1 /\ Started(i, points)

\* The position reached for a target.
Reached(i, tf, points) ==
  LET t == tf * (Divisor \div 8)
      startup == IF Started(i, points) THEN i.p
                 ELSE Min2(Max2(i.p, t), StartupEnd(points))
  IN  IF startup < StartupEnd(points) THEN startup
      ELSE Max2(startup, Divisor * (t \div Divisor))

\* The points appended when going from one position to another.
Appended(p, q) == (p \div Divisor) + 1 .. q \div Divisor
=============================================================================
