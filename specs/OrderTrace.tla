------------------------------ MODULE OrderTrace ------------------------------
(* The orders of convergence of the integrators: the slope of the logarithm  *)
(* of the error as a function of the logarithm of the step (in tenths) is    *)
(* the order of the method, and that of the local error estimate of an       *)
(* embedded method is one more than the order of its lower-order formula.    *)
EXTENDS TraceCommon

OrderOk(e) ==
  /\ e.slope >= 10 * e.claimed - 4
  /\ "estimate" \in DOMAIN e => e.estimate >= 10 * e.claimed - 4

TraceSpec ==
  /\ CommonInit
  /\ [][\/ IsEvent("order") /\ OrderOk(Event) = TRUE
        \/ IsEvent("end")]_<<tr, l>>
=============================================================================
