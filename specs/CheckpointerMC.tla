---------------------------- MODULE CheckpointerMC ----------------------------
EXTENDS Checkpointer
CONSTANTS Ts, Depth
Next ==
  \/ written < Depth /\ \E t \in Ts : Write(t)
  \/ written < Depth /\ \E t \in Ts, m \in 0..3, d \in BOOLEAN : 
       ~NeededDies(t, m) /\ WriteIfNeeded(t, m, d)
  \/ RoundTrip(LAMBDA p : p)
Spec == Init /\ [][Next]_vars
\* When checkpoints are only created as needed with increasing times, they are
\* never too close.
Spaced == \A t \in Times : Max(Before(t)) = t
=============================================================================
