-------------------------- MODULE EphemerisConcTrace --------------------------
(* Validates concurrent executions of the real code: the reanimator goes     *)
(* backwards from checkpoint to checkpoint, no further than was asked, and   *)
(* those that wait return when the past that they want is known.             *)
EXTENDS Ephemeris, TraceCommon

VARIABLES x,     \* The ephemeris.
          asked, \* The times requested.
          call   \* For each thread, the call in progress.
vars == <<x, asked, call>>

H == 1..4
Idle == <<"idle">>

TraceInit ==
  /\ CommonInit
  /\ x = LET e == IntegrateTo(NewEphemeris, Cfg.steps, Cfg.days)
         IN Prolonged(ReadAt(e.cps, 2 * Cfg.steps), 2 * (Cfg.steps + 8), -1,
                      Cfg.days)
  /\ asked = {}
  /\ call = [h \in H |-> Idle]

MinText == ToString(TMin(x))

Call(h, c) == call[h] = Idle /\ call' = [call EXCEPT ![h] = c]
Return(h) == call' = [call EXCEPT ![h] = Idle]

TraceNext ==
  \/ /\ IsEvent("ready")
     /\ Event.min = MinText /\ Event.max = ToString(TMax(x))
     /\ UNCHANGED vars
  \/ /\ IsEvent("await")
     /\ Call(Event.h, <<"await", Event.t>>)
     /\ asked' = asked \cup {Event.t}
     /\ UNCHANGED x
  \/ /\ IsEvent("awaited")
     /\ TMin(x) <= call[Event.h][2]
     /\ Event.min = MinText
     /\ Return(Event.h)
     /\ UNCHANGED <<x, asked>>
  \/ /\ IsEvent("request")
     /\ Call(Event.h, <<"request", Event.t>>)
     /\ asked' = asked \cup {Event.t}
     /\ UNCHANGED x
  \/ /\ IsEvent("requested") /\ Return(Event.h) /\ UNCHANGED <<x, asked>>
  \/ /\ IsEvent("prolong")
     /\ Call(Event.h, <<"prolong", Event.t>>)
     /\ UNCHANGED <<x, asked>>
  \/ /\ IsEvent("prolonged")
     /\ Event.ok = 1
     /\ call[Event.h][1] = "done"
     \* Another thread may have prolonged further.
     /\ Event.max \in {ToString(t) : t \in call[Event.h][2]..TMax(x)}
     /\ Return(Event.h)
     /\ UNCHANGED <<x, asked>>
  \/ /\ IsEvent("destroy")
     /\ \A h \in H : call[h] = Idle
     /\ Event.min = MinText
     /\ UNCHANGED vars
  \/ IsEvent("destroyed") /\ UNCHANGED vars
  \/ IsEvent("end") /\ UNCHANGED vars
  \* A thread prolongs.
  \/ /\ Silent
     /\ \E h \in H :
          /\ call[h][1] = "prolong"
          /\ x' = Prolonged(x, 2 * call[h][2], -1, Cfg.days)
          /\ call' = [call EXCEPT ![h] = <<"done", TMax(x')>>]
     /\ UNCHANGED asked
  \* The reanimator progresses by one checkpoint.
  \/ /\ Silent
     /\ asked # {}
     /\ LET t == MinOf(asked)
        IN /\ Target(x, 2 * t) < x.oldest
           /\ LET c == MaxOf({d \in x.cps : d < x.oldest})
              IN x' = [x EXCEPT !.oldest = c, !.first = BatchOf(c)]
     /\ UNCHANGED <<asked, call>>

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tr, l>>
=============================================================================
