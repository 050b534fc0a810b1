-------------------------- MODULE NearestNeighbour --------------------------
(***************************************************************************)
(* numerics/nearest_neighbour: a sequence of points with integer           *)
(* coordinates, to which points are added, and from which the nearest      *)
(* neighbour of a point is extracted.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLE points

Dist2(p, q) == LET d(i) == p[i] - q[i] IN d(1) * d(1) + d(2) * d(2) + d(3) * d(3)

Add(p) == points' = Append(points, p)

Eligible(reject) == {i \in 1..Len(points) : i \notin reject}
\* The acceptable results of a query: indices of points, or 0 if there is none.
Nearest(q, reject) ==
  LET e == Eligible(reject) IN
  IF e = {} THEN {0}
  ELSE {i \in e : \A j \in e : Dist2(points[i], q) <= Dist2(points[j], q)}
=============================================================================
