--------------------------- MODULE DisjointSetsMC ---------------------------
EXTENDS DisjointSets
CONSTANT N
Init == block = [x \in 1..N |-> {x}] /\ edges = {}
Next == \E x, y \in Elements : Unite(x, y)
Spec == Init /\ [][Next]_vars
=============================================================================
