----------------------------- MODULE TraceCommon -----------------------------
(***************************************************************************)
(* Common machinery for validating executions of the real code.  The file  *)
(* named by the environment variable TRACES has one JSON object per line;  *)
(* its field "ev" is a sequence of events.  Every trace is a separate      *)
(* initial state; an execution is accepted iff some behaviour of the       *)
(* specification consumes all of its events.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

VARIABLES tr, \* The trace being validated.
          l   \* The position of the next event to consume.

Traces == ndJsonDeserialize(IOEnv.TRACES)
Verbose == "VERBOSE" \in DOMAIN IOEnv

CommonInit == tr \in 1..Len(Traces) /\ l = 1

Trace == Traces[tr].ev
Cfg == Traces[tr].cfg
Event == Trace[l]
More == l <= Len(Trace)

Advance ==
  /\ l' = l + 1
  /\ tr' = tr

IsEvent(e) ==
  /\ l <= Len(Trace)
  /\ Trace[l].e = e
  /\ Advance

\* An internal step of the specification.
Silent ==
  /\ l <= Len(Trace)
  /\ UNCHANGED <<tr, l>>

\* To be evaluated in every state: reports the acceptance of a trace.
Report ==
  /\ (l = Len(Trace) + 1 => PrintT(<<"ACCEPT", tr>>))
  /\ (Verbose => PrintT(<<"AT", tr, l>>))
=============================================================================
