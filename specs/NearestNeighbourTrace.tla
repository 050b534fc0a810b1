------------------------ MODULE NearestNeighbourTrace ------------------------
(* Validates executions of the real code against NearestNeighbour. *)
EXTENDS NearestNeighbour, TraceCommon

TraceInit == CommonInit /\ points = <<>>

Set(s) == {s[i] : i \in 1..Len(s)}

TraceNext ==
  \/ IsEvent("new") /\ points' = Event.points
  \/ IsEvent("add") /\ Add(Event.p)
  \/ /\ IsEvent("find")
     /\ Event.r \in Nearest(Event.q, Set(Event.reject))
     /\ UNCHANGED points
  \/ IsEvent("end") /\ UNCHANGED points

TraceSpec == TraceInit /\ [][TraceNext]_<<points, tr, l>>
=============================================================================
