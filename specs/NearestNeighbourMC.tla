------------------------- MODULE NearestNeighbourMC -------------------------
(***************************************************************************)
(* The algorithm: a binary tree whose internal nodes separate the points   *)
(* by a plane, here with an arbitrary normal and going through arbitrary   *)
(* midpoints, and whose leaves have at most Max points.  A search explores *)
(* the side where the query is, and the other one if the plane is nearer   *)
(* than the best point found.                                              *)
(***************************************************************************)
EXTENDS NearestNeighbour, FiniteSets
CONSTANTS Size, MaxPoints, MaxLeaf
VARIABLE tree
vars == <<points, tree>>

Grid == (0..Size) \X (0..Size) \X {0}
Normals == {<<1, 0, 0>>, <<0, 1, 0>>, <<1, 1, 0>>}
Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Leaf(s) == [leaf |-> TRUE, s |-> s]

\* Twice the signed distance to the plane, times the norm of the normal.
Proj(n, q) == 2 * Dot(n.normal, q) - n.anchor
\* All the ways to split a set of indices s, where pts are the points: half of
\* them are below, half of them are above, and the plane is halfway between
\* those that are closest to the other side.  Points that have the same
\* projection may be on either side.
Split(b, a, n, pts) ==
  LET Max == CHOOSE x \in {Dot(n, pts[i]) : i \in b} : \A i \in b : Dot(n, pts[i]) <= x
      Min == CHOOSE x \in {Dot(n, pts[i]) : i \in a} : \A i \in a : Dot(n, pts[i]) >= x
  IN [leaf |-> FALSE, normal |-> n, anchor |-> Max + Min, below |-> Leaf(b), above |-> Leaf(a)]
Splits(s, pts) ==
  {Split(x[1], s \ x[1], x[2], pts) :
   x \in {x \in {b \in SUBSET s : Cardinality(b) = Cardinality(s) \div 2} \X Normals :
           \A i \in x[1], j \in s \ x[1] : Dot(x[2], pts[i]) <= Dot(x[2], pts[j])}}

RECURSIVE Insertions(_, _, _)
\* The trees that may result from the insertion of the index i.
Insertions(t, i, pts) ==
  IF t.leaf
  THEN IF Cardinality(t.s) < MaxLeaf THEN {Leaf(t.s \cup {i})}
       ELSE Splits(t.s \cup {i}, pts)
  ELSE IF Proj(t, pts[i]) < 0
       THEN {[t EXCEPT !.below = b] : b \in Insertions(t.below, i, pts)}
       ELSE {[t EXCEPT !.above = a] : a \in Insertions(t.above, i, pts)}

Far == 1000000
RECURSIVE Find(_, _, _)
Find(t, q, reject) ==
  IF t.leaf
  THEN LET e == t.s \ reject IN
       IF e = {} THEN [i |-> 0, d |-> Far]
       ELSE LET b == CHOOSE i \in e : \A j \in e : Dist2(points[i], q) <= Dist2(points[j], q)
            IN [i |-> b, d |-> Dist2(points[b], q)]
  ELSE LET first == Find(IF Proj(t, q) < 0 THEN t.below ELSE t.above, q, reject)
           p == Proj(t, q) IN
       IF p * p < 4 * Dot(t.normal, t.normal) * first.d
       THEN LET second == Find(IF Proj(t, q) < 0 THEN t.above ELSE t.below, q, reject)
            IN IF second.d < first.d THEN second ELSE first
       ELSE first

Init == points = <<>> /\ tree = Leaf({})
Next == \E p \in Grid :
  /\ Len(points) < MaxPoints
  /\ Add(p)
  /\ tree' \in Insertions(tree, Len(points'), points')
Spec == Init /\ [][Next]_vars

\* A split always exists.
NotStuck == Len(points) < MaxPoints =>
  \A p \in Grid : Insertions(tree, Len(points) + 1, Append(points, p)) # {}
Correct == \A q \in Grid : \A reject \in {{}, {1}, {2, 3}} :
  Find(tree, q, reject).i \in Nearest(q, reject)
=============================================================================
