----------------------------- MODULE BundleTrace -----------------------------
(* Validates executions of the real code against Bundle. *)
EXTENDS Bundle, Sequences, TraceCommon

TraceInit == Init /\ CommonInit

At(e) == IsEvent(e) /\ Event.n = now

TraceNext ==
  \/ At("add") /\ Add(Event.t)
  \/ At("start") /\ Start(Event.t)
  \/ At("fin") /\ Finish(Event.t, Event.s)
  \* The thread that ran the task has ended.
  \/ At("exit") /\ task[Event.t] = "done" /\ UNCHANGED vars
  \/ At("join") /\ Join(IF Event.k = "plain" THEN Never ELSE Event.d)
  \/ At("joined") /\ Joined(Event.s)
  \/ IsEvent("end") /\ join = "joined" /\ UNCHANGED vars
  \/ IsEvent("limit") /\ UNCHANGED vars
  \/ Silent /\ (Expire \/ \E t \in Task : Commit(t))
  \* Time flows up to the next event, not skipping the expiration of the join.
  \/ Silent /\ "n" \in DOMAIN Event /\ Tick(Event.n)
  \/ Silent /\ "n" \in DOMAIN Event /\ limit < Event.n /\ Tick(limit)

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tr, l>>
=============================================================================
