------------------------ MODULE CheckpointerConcTrace ------------------------
(* Validates concurrent executions of the real code. *)
EXTENDS CheckpointerConc, TraceCommon

TraceInit == CInit /\ CommonInit

Elements(s) == {s[i] : i \in 1..Len(s)}
Increasing(s) == \A i \in 1..Len(s) - 1 : s[i] < s[i + 1]

TraceNext ==
  \/ IsEvent("write") /\ CallWrite(Event.h, Event.t, Event.p)
  \/ IsEvent("need") /\ CallNeed(Event.h, Event.t, Event.max, Event.p)
  \/ IsEvent("read") /\ CallRead(Event.h, Event.t)
  \/ IsEvent("list") /\ CallList(Event.h)
  \/ IsEvent("wrote") /\ ReturnWrite(Event.h, Event.r = 1)
  \/ IsEvent("have") /\ ReturnRead(Event.h, Event.ps)
  \/ /\ IsEvent("listed")
     /\ Increasing(Event.ts)
     /\ ReturnList(Event.h, Elements(Event.ts))
  \/ IsEvent("end") /\ UNCHANGED cvars
  \/ IsEvent("limit") /\ UNCHANGED cvars
  \/ Silent /\ \E h \in Thread : Commit(h)

TraceSpec == TraceInit /\ [][TraceNext]_<<cvars, tr, l>>
=============================================================================
