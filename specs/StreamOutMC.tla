---------------------------- MODULE StreamOutMC ----------------------------
EXTENDS StreamOut

MCInit ==
  /\ OutInit
  /\ cfg \in [chunk : 1..3, chunks : 4..5, comp : BOOLEAN, total : 0..7]

Next ==
  \/ InvokePull
  \/ \E s \in 0..3 : EffectPull(s) \/ ReturnPull(s) \/ BeginCompress(ready, s)
  \/ EndCompress(ready)
  \/ client = "ended" /\ ready = Len(sizes) /\ UNCHANGED outVars

Spec == MCInit /\ [][Next]_outVars /\ WF_outVars(Next)
Ends == <>(client = "ended")
=============================================================================
