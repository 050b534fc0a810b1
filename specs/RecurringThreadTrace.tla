------------------------ MODULE RecurringThreadTrace ------------------------
(* Validates executions of the real code against RecurringThread. *)
EXTENDS RecurringThread, TraceCommon

TraceInit == CommonInit /\ Init /\ has_output = (Cfg.output = 1)

At(e) == IsEvent(e) /\ Event.n = now

Active == {c \in Client : op[c] # NoOp}

TraceNext ==
  \/ At("put") /\ InvokePut(Event.c, Event.v)
  \/ At("putted") /\ ReturnPut(Event.c)
  \/ At("get") /\ InvokeGet(Event.c)
  \/ At("got") /\ ReturnGet(Event.c, Event.v)
  \/ \E k \in {"start", "stop", "restart"} :
       At(k) /\ InvokeControl(Event.c, k)
  \/ (At("started") \/ At("stopped") \/ At("restarted")) /\
     ReturnControl(Event.c)
  \/ At("act") /\ Act(Event.v)
  \/ At("fin") /\ Finish(Event.v, Event.ok = 1, Event.st = 1)
  \/ At("destroy") /\ Destroy
  \/ At("destroyed") /\ Destroyed
  \/ IsEvent("end") /\ life = "dead" /\ UNCHANGED vars
  \/ IsEvent("limit") /\ UNCHANGED vars
  \/ Silent /\ \E c \in Active : EffectPut(c) \/ EffectGet(c) \/ BeginControl(c)
                                 \/ EndControl(c)
  \/ Silent /\ (Exit \/ Take \/ Drop \/ Publish \/ Abandon \/ StopForDestruction)
  \/ Silent /\ "n" \in DOMAIN Event /\ Tick(Event.n)

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tr, l>>
=============================================================================
