------------------------------- MODULE MapsMC -------------------------------
(* The laws that the words obey. *)
EXTENDS Maps
CONSTANT MaxLength
Names == {"XYZ", "YZX", "ZXY", "XZY", "ZYX", "YXZ"}
Generators ==
  {Linear(PermutationNamed(n), 0) : n \in Names} \cup
  {Linear(SignatureOf(s), 0) : s \in Signs3} \cup
  {Linear(One, 1)} \cup
  {Gen(AxisTurn(1, 1), 0, <<0, 64, 0>>, <<0, 0, 64>>, <<64, 0, 128>>)}
Init == words = [i \in {1} |-> <<>>]
Next == \/ \E g \in Generators : Len(words[1]) < MaxLength /\ Define(1, <<g>> \o words[1])
        \/ Inverted(1, 1)
Spec == Init /\ [][Next]_words

W == words[1]
Points == {<<64, 0, 0>>, <<0, 64, 64>>, <<-64, 128, 192>>}
DofSpace == {[q |-> q, v |-> v] : q \in Points, v \in {Zero, <<64, -64, 0>>}}
InverseUndoes ==
  /\ \A v \in Points : Vec(Reversed(W), Vec(W, v)) = v
  /\ \A v \in Points : Biv(Reversed(W), Biv(W, v)) = v
  /\ \A d \in DofSpace : Dof(Reversed(W), Dof(W, d)) = d
  /\ Determinant(Reversed(W)) = Determinant(W)
\* The induced maps are compatible with the exterior product.
Exterior ==
  \A u, v \in Basis :
    Cross(Vec(W, Times(64, u)), Vec(W, Times(64, v))) =
      Scale(2 * Exponent(W), Times(4096, Biv(W, Cross(u, v))))
Trivectors == Tri(W, 1) = Determinant(W)
\* A word without scale acts like an element of the group.
Closed == Exponent(W) = 0 =>
  \E e \in Oh : /\ \A v \in Basis : Vec(W, Times(64, v)) = Act(e, Times(64, v))
                /\ Det(e) = Determinant(W)
=============================================================================
