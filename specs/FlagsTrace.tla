----------------------------- MODULE FlagsTrace -----------------------------
(* Validates executions of the real code against Flags. *)
EXTENDS Flags, TraceCommon

TraceInit == CommonInit /\ Init

TraceNext ==
  \/ IsEvent("set") /\ Set(Event.n, Event.v)
  \/ IsEvent("clear") /\ Clear
  \/ /\ IsEvent("values")
     /\ {Event.vs[i] : i \in 1..Len(Event.vs)} = Values(Event.n)
     /\ UNCHANGED vars
  \/ /\ IsEvent("present")
     /\ Event.r = IsPresent(Event.n)
     /\ UNCHANGED vars
  \/ /\ IsEvent("presentv")
     /\ Event.r = IsPresentWith(Event.n, Event.v)
     /\ UNCHANGED vars
  \/ IsEvent("end") /\ UNCHANGED vars

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tr, l>>
=============================================================================
