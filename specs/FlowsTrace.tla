------------------------------ MODULE FlowsTrace ------------------------------
(* Validates executions of the flows against Flows.                          *)
EXTENDS Flows, TraceCommon

VARIABLES walls, \* The times where the accelerations are singular.
          x,     \* The instances.
          call,  \* The current request.
          tmax,
          dead
vars == <<walls, x, call, tmax, dead>>

None == [start |-> 0, step |-> 1, points |-> 1, p |-> 0]
NoCall == [e |-> ""]

TraceInit ==
  /\ CommonInit
  /\ walls = [k \in 1..4 |-> 0]
  /\ x = [k \in 1..2 |-> None]
  /\ call = NoCall
  /\ tmax = -1
  /\ dead = FALSE

CreationOk(f, r) ==
  /\ r.others
  /\ IF r.code = "cancelled"
     THEN f.stop
     ELSE /\ r.code = "ok"
          /\ ~f.stop
          /\ ProlongOk(f.before, r.tmax, f.start + f.step, 1000000)

Permitted ==
  CASE call.e = "adaptive" -> MayFlow(call)
    [] call.e = "fixed" -> MayStep(x[call.i], call.t)
    [] OTHER -> TRUE

TraceNext ==
  \/ /\ ~dead
     /\ \/ /\ IsEvent("new")
           /\ Event.others
           /\ walls' = [walls EXCEPT ![Event.k] = Event.wall]
           /\ UNCHANGED <<x, call, tmax, dead>>
        \/ /\ (IsEvent("adaptive") \/ IsEvent("fixed") \/ IsEvent("instance"))
           /\ Event.before = tmax
           /\ call' = Event
           /\ UNCHANGED <<walls, x, tmax, dead>>
        \/ /\ IsEvent("flowed")
           /\ call.e = "adaptive"
           /\ AdaptiveOk(call, Event, walls[call.k]) = TRUE
           /\ tmax' = Event.tmax
           /\ call' = NoCall
           /\ UNCHANGED <<walls, x, dead>>
        \/ /\ IsEvent("created")
           /\ call.e = "instance"
           /\ CreationOk(call, Event) = TRUE
           /\ x' = [x EXCEPT ![Event.i] =
                [start |-> call.start, step |-> call.step,
                 points |-> call.points, p |-> 0]]
           /\ tmax' = Event.tmax
           /\ call' = NoCall
           /\ UNCHANGED <<walls, dead>>
        \/ /\ IsEvent("stepped")
           /\ call.e = "fixed"
           /\ FixedOk(x[call.i], call, Event) = TRUE
           /\ x' = [x EXCEPT ![Event.i].p = Event.p]
           /\ tmax' = Event.tmax
           /\ call' = NoCall
           /\ UNCHANGED <<walls, dead>>
        \/ /\ IsEvent("again")
           /\ Event.same
           /\ UNCHANGED vars
        \/ /\ IsEvent("release")
           /\ UNCHANGED vars
        \/ /\ IsEvent("prolong")
           /\ Event.before = tmax
           /\ Event.others
           /\ ProlongOk(tmax, Event.tmax, Event.t, 1000000) = TRUE
           /\ tmax' = Event.tmax
           /\ UNCHANGED <<walls, x, call, dead>>
        \/ /\ IsEvent("died")
           /\ call.e # ""
           /\ Permitted = FALSE
           /\ dead' = TRUE
           /\ UNCHANGED <<walls, x, call, tmax>>
        \/ /\ IsEvent("end")
           /\ UNCHANGED vars
  \/ dead /\ IsEvent("died") /\ UNCHANGED vars

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tr, l>>
=============================================================================
