----------------------------- MODULE StreamInMC -----------------------------
EXTENDS StreamIn

MCInit ==
  /\ InInit
  /\ icfg \in [chunk : 1..2, chunks : 1..3, comp : BOOLEAN]

Ended == Len(blocks) = 4
Next ==
  \/ /\ Len(blocks) < 3
     /\ \E s \in 1..4, cb \in BOOLEAN : InvokePush(Len(blocks), s, cb)
  \/ Len(blocks) = 3 /\ InvokePush(3, 0, TRUE)
  \/ EnqueueChunk
  \/ ReturnPush(pushing.i) /\ pushing # NoPush
  \/ TakeChunk
  \/ \E i \in 0..3 : Callback(i)
  \/ NoCallback \/ Complete \/ Join

Spec == MCInit /\ [][Next]_inVars /\ WF_inVars(Next)
Ends == <>(state = "joined")
=============================================================================
