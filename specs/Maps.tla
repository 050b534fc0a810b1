-------------------------------- MODULE Maps --------------------------------
(***************************************************************************)
(* The maps between frames (geometry/{sign,permutation,signature,rotation, *)
(* orthogonal_map,conformal_map,homothecy,identity,affine_map}.hpp and     *)
(* physics/rigid_motion.hpp), restricted to those that have integer        *)
(* coefficients.  A map is a word over a set of generators, i.e., a        *)
(* sequence of generators or inverses of generators; whatever is derived   *)
(* from maps (by composition, inversion, conversion or serialization) must *)
(* act like the corresponding word.                                        *)
(*                                                                         *)
(* The orthogonal part of a generator is an element of the group of order  *)
(* 48 of the signed permutations of the axes: [p |-> permutation,          *)
(* s |-> signs] maps v to <<s[1] * v[p[1]], s[2] * v[p[2]], s[3] * v[p[3]]>>.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLE words \* A function from the identifiers of maps to words.

Axes == 1..3
V3(f(_)) == <<f(1), f(2), f(3)>>
Zero == <<0, 0, 0>>
Plus(u, v) == [i \in Axes |-> u[i] + v[i]]
Minus(u, v) == [i \in Axes |-> u[i] - v[i]]
Times(a, v) == [i \in Axes |-> a * v[i]]
Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Cross(u, v) == <<u[2] * v[3] - u[3] * v[2],
                 u[3] * v[1] - u[1] * v[3],
                 u[1] * v[2] - u[2] * v[1]>>
Basis == {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>}

Permutations3 == {p \in [Axes -> Axes] : \A i, j \in Axes : p[i] = p[j] => i = j}
Signs3 == [Axes -> {-1, 1}]
Oh == [p : Permutations3, s : Signs3]

One == [p |-> <<1, 2, 3>>, s |-> <<1, 1, 1>>]
Act(e, v) == [i \in Axes |-> e.s[i] * v[e.p[i]]]
Compose(l, r) == [p |-> [i \in Axes |-> r.p[l.p[i]]],
                  s |-> [i \in Axes |-> l.s[i] * r.s[l.p[i]]]]
\* The axis sent to axis i by the inverse.
Preimage(e, i) == CHOOSE j \in Axes : e.p[j] = i
Invert(e) == [p |-> [i \in Axes |-> Preimage(e, i)],
              s |-> [i \in Axes |-> e.s[Preimage(e, i)]]]
Even(p) == p \in {<<1, 2, 3>>, <<2, 3, 1>>, <<3, 1, 2>>}
Det(e) == (IF Even(e.p) THEN 1 ELSE -1) * e.s[1] * e.s[2] * e.s[3]
Trace3(e) == Act(e, <<1, 0, 0>>)[1] + Act(e, <<0, 1, 0>>)[2] + Act(e, <<0, 0, 1>>)[3]
Column(e, i) == Act(e, [j \in Axes |-> IF i = j THEN 1 ELSE 0])

\* The rotation of n twelfths of a turn around d.
IsTurn(e, d, n) ==
  LET k == n % 12 IN
  /\ Det(e) = 1
  /\ Act(e, d) = d
  /\ Trace3(e) = CASE k = 0 -> 3 [] k \in {3, 9} -> 1
                   [] k \in {4, 8} -> 0 [] k = 6 -> -1
  /\ k \in {3, 4} => \A v \in Basis : Dot(d, Cross(v, Act(e, v))) >= 0
  /\ k \in {8, 9} => \A v \in Basis : Dot(d, Cross(v, Act(e, v))) <= 0
Turn(d, n) == CHOOSE e \in Oh : IsTurn(e, d, n)
AxisTurn(i, n) == Turn([j \in Axes |-> IF i = j THEN 1 ELSE 0], 3 * n)

-----------------------------------------------------------------------------
\* Generators: x |-> 2^k e(x) + b for the positions; the frame of arrival
\* rotates at w, and its origin moves at u.
Gen(e, k, b, w, u) == [e |-> e, k |-> k, b |-> b, w |-> w, u |-> u, inv |-> FALSE]
Linear(e, k) == Gen(e, k, Zero, Zero, Zero)
Reversed(word) == [i \in 1..Len(word) |->
                    LET g == word[Len(word) + 1 - i] IN [g EXCEPT !.inv = ~@]]

\* Multiplies by a power of two.
Scale(k, v) == IF k >= 0 THEN Times(2^k, v) ELSE [i \in Axes |-> v[i] \div 2^(-k)]

E(g) == IF g.inv THEN Invert(g.e) ELSE g.e
K(g) == IF g.inv THEN -g.k ELSE g.k

RECURSIVE Vec(_, _), Biv(_, _), Tri(_, _), Dof(_, _), Determinant(_), Exponent(_)
\* The words apply from right to left.
Last(w) == w[Len(w)]
Front(w) == SubSeq(w, 1, Len(w) - 1)
Vec(w, v) == IF w = <<>> THEN v
             ELSE Vec(Front(w), Scale(K(Last(w)), Act(E(Last(w)), v)))
\* No scaling: the scale is for vectors.
Biv(w, v) == IF w = <<>> THEN v
             ELSE Biv(Front(w), Times(Det(E(Last(w))), Act(E(Last(w)), v)))
Tri(w, a) == IF w = <<>> THEN a ELSE Tri(Front(w), Det(E(Last(w))) * a)
Determinant(w) == IF w = <<>> THEN 1 ELSE Det(Last(w).e) * Determinant(Front(w))
Exponent(w) == IF w = <<>> THEN 0 ELSE K(Last(w)) + Exponent(Front(w))

\* Degrees of freedom.
Origin(g) == Act(Invert(g.e), Scale(-g.k, Times(-1, g.b)))
Apply1(g, d) ==
  IF ~g.inv
  THEN [q |-> Plus(Scale(g.k, Act(g.e, d.q)), g.b),
        v |-> Act(g.e, Minus(Minus(d.v, g.u), Cross(g.w, Minus(d.q, Origin(g)))))]
  ELSE LET q == Scale(-g.k, Act(Invert(g.e), Minus(d.q, g.b))) IN
       [q |-> q,
        v |-> Plus(Plus(Act(Invert(g.e), d.v), g.u), Cross(g.w, Minus(q, Origin(g))))]
Dof(w, d) == IF w = <<>> THEN d ELSE Dof(Front(w), Apply1(Last(w), d))
Pos(w, q) == Dof(w, [q |-> q, v |-> Zero]).q

\* The matrix of a form on vectors: f(u, v).
Form(w, f) ==
  LET i(v) == Vec(Reversed(w), v)
      F(u, v) == Dot(u, <<Dot(f[1], v), Dot(f[2], v), Dot(f[3], v)>>)
      e(j) == [k \in Axes |-> IF j = k THEN 1 ELSE 0] IN
  [j \in Axes |-> [k \in Axes |-> F(i(e(j)), i(e(k)))]]
FormB(w, f) ==
  LET i(v) == Biv(Reversed(w), v)
      F(u, v) == Dot(u, <<Dot(f[1], v), Dot(f[2], v), Dot(f[3], v)>>)
      e(j) == [k \in Axes |-> IF j = k THEN 1 ELSE 0] IN
  [j \in Axes |-> [k \in Axes |-> F(i(e(j)), i(e(k)))]]

-----------------------------------------------------------------------------
Ids == DOMAIN words
Define(id, w) == words' = [i \in Ids \cup {id} |-> IF i = id THEN w ELSE words[i]]
New(id, g) == Define(id, <<g>>)
Composed(id, l, r) == l \in Ids /\ r \in Ids /\ Define(id, words[l] \o words[r])
Inverted(id, a) == a \in Ids /\ Define(id, Reversed(words[a]))
\* Conversion, or serialization and deserialization.
Copied(id, a) == a \in Ids /\ Define(id, words[a])

\* The permutation YZX gives a vector whose coordinates are the y, z and x ones.
PermutationNamed(n) ==
  [p |-> CASE n = "XYZ" -> <<1, 2, 3>> [] n = "YZX" -> <<2, 3, 1>>
           [] n = "ZXY" -> <<3, 1, 2>> [] n = "XZY" -> <<1, 3, 2>>
           [] n = "ZYX" -> <<3, 2, 1>> [] n = "YXZ" -> <<2, 1, 3>>,
   s |-> <<1, 1, 1>>]
SignatureOf(s) == [p |-> <<1, 2, 3>>, s |-> s]
=============================================================================
