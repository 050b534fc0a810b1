----------------------------- MODULE StreamTrace -----------------------------
(* Validates executions of the real code against StreamOut and StreamIn; in  *)
(* the "pipe" executions the chunks pulled out are those pushed in.          *)
EXTENDS StreamOut, StreamIn, TraceCommon

VARIABLES now, whole, raws

common == <<now, whole, raws>>
B(x) == x = 1

TraceInit ==
  /\ CommonInit
  /\ cfg = [chunk |-> Cfg.chunk, chunks |-> Cfg.chunks, comp |-> B(Cfg.comp),
            total |-> Cfg.total]
  /\ OutInit
  /\ icfg = [chunk |-> Cfg.chunk, chunks |-> Cfg.chunks, comp |-> B(Cfg.comp)]
  /\ InInit
  /\ now = 0
  /\ whole = FALSE
  /\ raws = <<>>

At(e) == IsEvent(e) /\ Event.n = now

Out(A) == A /\ UNCHANGED inVars /\ UNCHANGED common
In(A) == A /\ UNCHANGED outVars /\ UNCHANGED common

PullsUsed == client # "idle" \/ pulled > 0

TraceNext ==
  \* The chunk last returned has not changed.
  \/ At("pull") /\ B(Event.stable) /\ Out(InvokePull)
  \/ At("pulled") /\ ReturnPull(Event.s)
     /\ (~cfg.comp \/ Event.s = 0 => Event.raw = Event.s)
     /\ raws' = Append(raws, Event.raw)
     /\ UNCHANGED inVars /\ UNCHANGED <<now, whole>>
  \/ At("comp") /\ Out(BeginCompress(Event.i, Event.s))
  \/ At("compd") /\ Out(EndCompress(Event.i))
  \/ /\ At("whole")
     /\ client = "ended"
     /\ B(Event.ok)
     /\ whole' = TRUE
     /\ UNCHANGED outVars /\ UNCHANGED inVars /\ UNCHANGED <<now, raws>>
  \/ At("push") /\ (PullsUsed => Event.s = raws[Event.i + 1])
     /\ In(InvokePush(Event.i, Event.s, B(Event.cb)))
  \/ At("pushed") /\ In(ReturnPush(Event.i))
  \/ At("done") /\ In(Callback(Event.i))
  \* A chunk is taken from the queue and uncompressed.
  \/ At("unc") /\ icfg.comp /\ Event.i = taken /\ Event.s >= 0
     /\ queue # <<>> /\ Head(queue).s > 0
     /\ In(TakeChunk)
  \/ At("complete") /\ B(Event.ok) /\ In(Complete)
  \/ At("joined") /\ In(Join)
  \/ /\ IsEvent("end")
     /\ PullsUsed => client = "ended" /\ whole
     /\ blocks # <<>> => state = "joined"
     /\ UNCHANGED outVars /\ UNCHANGED inVars /\ UNCHANGED common
  \/ IsEvent("limit") /\ UNCHANGED outVars /\ UNCHANGED inVars
     /\ UNCHANGED common
  \* The chunk that Pull is about to return determines how much it obtains.
  \/ /\ Silent
     /\ client = "pulling"
     /\ IF \E k \in l..Len(Trace) : Trace[k].e = "pulled"
        THEN LET k == CHOOSE k \in l..Len(Trace) :
                        /\ Trace[k].e = "pulled"
                        /\ \A j \in l..k - 1 : Trace[j].e # "pulled"
             IN Out(EffectPull(Trace[k].s))
        ELSE \E s \in 0..cfg.chunk : Out(EffectPull(s))
  \/ Silent /\ In(EnqueueChunk)
  \/ Silent /\ queue # <<>> /\ (icfg.comp => Head(queue).s = 0) /\ In(TakeChunk)
  \/ Silent /\ In(NoCallback)
  \* Time passes only between the operations of the client.
  \/ /\ Silent
     /\ "n" \in DOMAIN Event
     /\ Event.n > now
     /\ client \in {"idle", "ended"}
     /\ pushing = NoPush
     /\ now' = Event.n
     /\ UNCHANGED outVars /\ UNCHANGED inVars /\ UNCHANGED <<whole, raws>>

TraceSpec == TraceInit /\ [][TraceNext]_<<outVars, inVars, common, tr, l>>
=============================================================================
