------------------------------- MODULE FlagsMC -------------------------------
EXTENDS Flags
CONSTANTS Names, Vals, Depth
Next ==
  \/ Len(log) < Depth /\ \E n \in Names, v \in Vals : Set(n, v)
  \/ Clear
Spec == Init /\ [][Next]_vars
=============================================================================
