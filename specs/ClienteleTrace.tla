---------------------------- MODULE ClienteleTrace ----------------------------
(* Validates executions of the real code against Clientele. *)
EXTENDS Clientele, TraceCommon

TraceInit == Init /\ CommonInit

TraceNext ==
  \/ IsEvent("join") /\ Call(Event.h, [k |-> "join", x |-> Event.x])
  \/ IsEvent("leave") /\ Call(Event.h, [k |-> "leave", x |-> Event.x])
  \/ IsEvent("first") /\ Call(Event.h, [k |-> "first"])
  \/ IsEvent("joined") /\ Return(Event.h, "joined", Event.x)
  \/ IsEvent("left") /\ Return(Event.h, "left", Event.x)
  \/ IsEvent("firsted") /\ Return(Event.h, "firsted", Event.r)
  \/ IsEvent("end") /\ (\A h \in Thread : op[h] = Idle) /\ UNCHANGED vars
  \/ IsEvent("limit") /\ UNCHANGED vars
  \/ Silent /\ \E h \in Thread : Commit(h)

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tr, l>>
=============================================================================
