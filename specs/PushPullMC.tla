----------------------------- MODULE PushPullMC -----------------------------
EXTENDS PushPull
CONSTANT MaxCalls

Next ==
  \/ Begin \/ Expose \/ Answer \/ End \/ InvokePull \/ Pull \/ ReturnPush
  \/ \E v \in Value :
       \/ history.made < MaxCalls /\ Call(v)
       \/ Return(v) \/ Finish(v) \/ ReturnPull(TRUE, v) \/ InvokePush(v)
       \/ Get(v)
  \/ ReturnPull(FALSE, None)

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
        /\ WF_vars(InvokePull) /\ WF_vars(Pull)
        /\ WF_vars(\E v \in Value : InvokePush(v))
        /\ WF_vars(ReturnPush)
        /\ WF_vars(ReturnPull(FALSE, None))
        /\ WF_vars(\E v \in Value : ReturnPull(TRUE, v))
        /\ WF_vars(Begin \/ Expose \/ Answer \/ End
                   \/ \E v \in Value : Return(v) \/ Finish(v))

\* The client is eventually told to stop, provided that it pulls.
Terminates == <>(task = "ended")
ClientStops == <>(client = "stopped")
\* A deadlock would be a state in which everybody waits.
NoDeadlock ==
  ~(task = "waiting" /\ result = None /\ client = "pulling" /\ arguments = None)
=============================================================================
