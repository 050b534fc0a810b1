------------------------------ MODULE BundleMC ------------------------------
(* The model of Bundle that TLC explores exhaustively. *)
EXTENDS Bundle

CONSTANTS MaxNow, Limits

Next ==
  \/ \E t \in Task : Add(t) \/ Start(t) \/ Commit(t)
  \/ \E t \in Task, s \in Code \cup {OK} : Finish(t, s)
  \/ \E d \in Limits \cup {Never} : Join(d)
  \/ Expire
  \/ now < MaxNow /\ Tick(now + 1)
  \/ \E s \in Code \cup {OK, DEADLINE} : Joined(s)

Fairness ==
  /\ \A t \in Task : WF_vars(Start(t)) /\ WF_vars(Commit(t))
                     /\ WF_vars(\E s \in Code \cup {OK} : Finish(t, s))
  /\ WF_vars(\E s \in Code \cup {OK, DEADLINE} : Joined(s))

Spec == Init /\ [][Next]_vars /\ Fairness

\* Every added task eventually runs, and every join eventually returns.
Progress ==
  /\ \A t \in Task : task[t] = "added" ~> task[t] = "done"
  /\ join = "waiting" ~> join = "joined"

=============================================================================
