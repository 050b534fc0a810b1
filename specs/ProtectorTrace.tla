---------------------------- MODULE ProtectorTrace ----------------------------
(* Validates executions of the real code against Protector. *)
EXTENDS Protector, TraceCommon

TraceInit == Init /\ CommonInit

TraceNext ==
  \/ IsEvent("protect") /\ CallProtect(Event.h, Event.t)
  \/ IsEvent("unprotect") /\ CallUnprotect(Event.h, Event.t)
  \/ IsEvent("run") /\ CallRun(Event.h, Event.id, Event.t)
  \/ IsEvent("protected") /\ Return(Event.h, "protect", FALSE)
  \/ IsEvent("unprotected") /\ Return(Event.h, "unprotect", FALSE)
  \/ IsEvent("ran") /\ Return(Event.h, "run", Event.r = 1)
  \/ IsEvent("begin") /\ BeginCallback(Event.h, Event.id)
  \/ IsEvent("finish") /\ EndCallback(Event.h, Event.id)
  \* Everything was unprotected, at the end.
  \/ /\ IsEvent("end")
     /\ \A h \in Thread : stack[h] = <<>>
     /\ Starts = {} /\ pending = {}
     /\ UNCHANGED vars
  \/ IsEvent("limit") /\ UNCHANGED vars
  \/ Silent /\ \E h \in Thread : Commit(h)

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tr, l>>
=============================================================================
