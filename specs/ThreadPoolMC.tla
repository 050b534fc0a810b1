---------------------------- MODULE ThreadPoolMC ----------------------------
(* The model of ThreadPool that TLC explores exhaustively. *)
EXTENDS ThreadPool

CONSTANTS MaxNow

\* Each call is submitted by one client.
Next ==
  \/ \E c \in Client, t \in Call : InvokeAdd(c, t) /\ call[t] = "new"
                                   /\ \A d \in Client : op[d].k \in {"add", "try"} => op[d].t # t
  \/ \E c \in Client, t \in Call : InvokeTry(c, t) /\ call[t] = "new"
                                   /\ \A d \in Client : op[d].k \in {"add", "try"} => op[d].t # t
  \/ \E c \in Client : InvokeWait(c, 1)
  \/ \E c \in Client, t \in Call : call[t] # "new" /\ InvokeGet(c, t)
  \/ \E c \in Client : EffectAdd(c) \/ EffectTry(c) \/ EffectWait(c)
  \/ \E c \in Client, t \in Call :
       \/ ReturnAdd(c, t) \/ ReturnGet(c, t)
       \/ \E r \in BOOLEAN : ReturnTry(c, t, r)
  \/ \E c \in Client, r \in BOOLEAN : ReturnWait(c, r)
  \/ Take
  \/ \E t \in Call : Start(t) \/ Finish(t) \/ SetResult(t) \/ Release(t)
  \/ Destroy \/ Shutdown \/ Destroyed
  \/ now < MaxNow /\ Tick(now + 1)

Fairness ==
  /\ WF_vars(Take) /\ WF_vars(Shutdown) /\ WF_vars(Destroyed)
  /\ \A t \in Call :
       /\ WF_vars(Start(t)) /\ WF_vars(Finish(t))
       /\ WF_vars(SetResult(t)) /\ WF_vars(Release(t))
  /\ \A c \in Client : WF_vars(EffectAdd(c)) /\ WF_vars(EffectTry(c))

Spec == Init /\ [][Next]_vars /\ Fairness

\* A queued call is eventually executed or the pool is destroyed.
Served == \A t \in Call : call[t] = "queued" ~> (HasResult(t) \/ pool = "closed")
Ends == pool = "closing" ~> pool = "closed"
=============================================================================
