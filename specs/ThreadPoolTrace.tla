--------------------------- MODULE ThreadPoolTrace ---------------------------
(* Validates executions of the real code against ThreadPool. *)
EXTENDS ThreadPool, TraceCommon

TraceInit == CommonInit /\ Init /\ size = Cfg.size

At(e) == IsEvent(e) /\ Event.n = now

Flag(r) == IF r = 1 THEN TRUE ELSE FALSE

TraceNext ==
  \/ At("add") /\ InvokeAdd(Event.c, Event.t)
  \/ At("added") /\ ReturnAdd(Event.c, Event.t)
  \/ At("try") /\ InvokeTry(Event.c, Event.t)
  \/ At("tried") /\ ReturnTry(Event.c, Event.t, Flag(Event.r))
  \/ At("wait") /\ InvokeWait(Event.c, Event.d)
  \/ At("waited") /\ ReturnWait(Event.c, Flag(Event.r))
  \/ At("get") /\ InvokeGet(Event.c, Event.t)
  \/ At("got") /\ Event.v = 100 + Event.t /\ ReturnGet(Event.c, Event.t)
  \/ At("start") /\ Start(Event.t)
  \/ At("fin") /\ Finish(Event.t)
  \/ At("destroy") /\ Destroy
  \/ At("destroyed") /\ Destroyed
  \* After the destruction, the futures have either a result or a broken
  \* promise.
  \/ /\ At("result")
     /\ pool = "closed"
     /\ Event.v = (IF HasResult(Event.t) THEN 100 + Event.t ELSE -1)
     /\ UNCHANGED vars
  \/ IsEvent("end") /\ pool = "closed" /\ UNCHANGED vars
  \/ IsEvent("limit") /\ UNCHANGED vars
  \/ Silent /\ \E c \in {d \in 0..3 : op[d].k # "none"} :
                 EffectAdd(c) \/ EffectTry(c) \/ EffectWait(c)
  \/ Silent /\ Take
  \/ Silent /\ \E t \in Busy : SetResult(t) \/ Release(t)
  \/ Silent /\ Shutdown
  \/ Silent /\ "n" \in DOMAIN Event /\ Tick(Event.n)

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tr, l>>

=============================================================================
