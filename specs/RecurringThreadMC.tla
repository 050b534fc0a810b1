------------------------- MODULE RecurringThreadMC -------------------------
EXTENDS RecurringThread

CONSTANT MaxNow

Next ==
  \/ \E c \in Client :
       \/ \E v \in Input : InvokePut(c, v)
       \/ EffectPut(c) \/ ReturnPut(c)
       \/ InvokeGet(c) \/ EffectGet(c)
       \/ \E v \in {None} \cup {Output(v) : v \in Input} : ReturnGet(c, v)
       \/ \E k \in {"start", "stop", "restart"} : InvokeControl(c, k)
       \/ BeginControl(c) \/ EndControl(c) \/ ReturnControl(c)
  \/ Destroy \/ StopForDestruction \/ Destroyed
  \/ Exit \/ Take \/ Drop \/ Publish \/ Abandon
  \/ \E v \in Input : Act(v) \/ \E ok, st \in BOOLEAN : Finish(v, ok, st)
  \/ now < MaxNow /\ Tick(now + 1)

Fairness ==
  /\ WF_vars(Exit \/ Take) /\ WF_vars(Drop) /\ WF_vars(Publish) /\ WF_vars(Abandon)
  /\ WF_vars(\E v \in Input : Act(v) \/ \E ok, st \in BOOLEAN : Finish(v, ok, st))
  /\ WF_vars(StopForDestruction) /\ WF_vars(Destroyed)
  /\ \A c \in Client : SF_vars(BeginControl(c)) /\ WF_vars(EndControl(c))

Spec == Init /\ [][Next]_vars /\ Fairness

\* Control operations terminate.
ControlEnds ==
  \A c \in Client :
    op[c].k \in {"start", "stop", "restart", "stopping"} ~>
      op[c].k = "controlled"
DestructionEnds == life = "dying" ~> life = "dead"
=============================================================================
