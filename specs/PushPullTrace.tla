---------------------------- MODULE PushPullTrace ----------------------------
(* Validates executions of the real code against PushPull. *)
EXTENDS PushPull, TraceCommon

VARIABLES now, destroyed

TraceInit == Init /\ CommonInit /\ now = 0 /\ destroyed = FALSE

At(e) == IsEvent(e) /\ Event.n = now /\ UNCHANGED <<now, destroyed>>

TraceNext ==
  \/ At("begin") /\ Begin
  \/ At("call") /\ Call(Event.i)
  \/ At("ret") /\ Return(Event.v)
  \/ At("fin") /\ Finish(Event.v)
  \/ At("pull") /\ InvokePull
  \/ At("pulled") /\ Event.r = 1 /\ Event.b = 10 * Event.a
                  /\ ReturnPull(TRUE, Event.a)
  \* The arguments are unchanged.
  \/ At("pulled") /\ Event.r = 0 /\ Event.a = -1 /\ Event.b = -1
                  /\ ReturnPull(FALSE, None)
  \/ At("push") /\ InvokePush(Event.v)
  \/ At("pushed") /\ ReturnPush
  \/ At("got") /\ Get(Event.v)
  \/ At("destroy") /\ UNCHANGED vars
  \/ IsEvent("destroyed") /\ Event.n = now /\ task = "ended" /\ destroyed' = TRUE
     /\ UNCHANGED <<now, vars>>
  \/ IsEvent("end") /\ destroyed /\ UNCHANGED <<now, destroyed, vars>>
  \/ IsEvent("limit") /\ UNCHANGED <<now, destroyed, vars>>
  \/ Silent /\ UNCHANGED <<now, destroyed>> /\ (Expose \/ Answer \/ End \/ Pull)
  \/ /\ Silent
     /\ "n" \in DOMAIN Event
     /\ Event.n > now
     /\ MayWait
     /\ now' = Event.n
     /\ UNCHANGED <<destroyed, vars>>

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, now, destroyed, tr, l>>
=============================================================================
