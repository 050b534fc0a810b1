--------------------------- MODULE FlightPlanTrace ----------------------------
(* Validates sequences of edits of flight plans against FlightPlan.          *)
EXTENDS FlightPlan, TraceCommon

VARIABLES x,      \* The plans: [alive, m0, max, params, obs].
          call    \* The current operation.
vars == <<x, call>>

None == [alive |-> FALSE]
NoCall == [e |-> ""]
\* An ephemeris step is 10 s, and the number of steps of a flow is limited to
\* 1000.  The trajectories of the bodies are extended by batches.
Reach == 9900

TraceInit ==
  /\ CommonInit
  /\ x = [k \in 1..3 |-> None]
  /\ call = NoCall

Applies(c, p) ==
  CASE c.e = "insert" -> InsertCode(c)
    [] c.e = "replace" -> ReplaceCode(c, c.i = Len(p.obs.burns))
    [] c.e = "remove" -> RemoveCode(c)
    [] c.e = "final" -> FinalCode(c)
    [] OTHER -> "apply"

NewBurns(c, p) ==
  CASE c.e = "insert" -> InsertAt(BurnsOf(p.obs), c.i, c.burn)
    [] c.e = "replace" -> [BurnsOf(p.obs) EXCEPT ![c.i] = c.burn]
    [] c.e = "remove" -> RemoveAt(BurnsOf(p.obs), c.i)
    [] OTHER -> BurnsOf(p.obs)

\* The end of the plan after an operation having the given outcome.
Desired(c, old, o) ==
  CASE c.e = "final" -> c.desired
    [] c.e = "replace" /\ c.i = Len(o.burns) ->
         IF c.longer THEN c.last ELSE old
    [] OTHER -> IF c.longer /\ LastReached(o) THEN c.last ELSE old

\* The first segment that is recomputed by an operation.
Recomputed(c, o) ==
  CASE c.e \in {"insert", "replace", "remove"} -> 2 * c.i - 1
    [] c.e = "final" -> Len(o.segments)
    [] OTHER -> 1

\* A segment that is not recomputed stays as it is.  The ones that are fail only
\* if there is a reason.
FailureOrOld(c, p, o, max, reach) ==
  LET first == FirstAnomalous(o.segments)
  IN  IF first > 0 /\ first < Recomputed(c, o)
      THEN /\ o.status = p.obs.status
           /\ first = FirstAnomalous(p.obs.segments)
           /\ o.segments[first].hash = p.obs.segments[first].hash
      ELSE FailureOk(o, max, reach) = TRUE

KeptOk(c, p, o) ==
  \A j \in 1..Len(o.segments) :
    j < Recomputed(c, o) =>
      o.segments[j].hash = p.obs.segments[j].hash

EditOk(c, p, r) ==
  LET code == Applies(c, p)
      o == r.obs
  IN  IF code # "apply"
      THEN /\ r.code = code
           /\ o = p.obs
      ELSE IF c.e = "avoid" /\ p.obs.status # "deadline"
      THEN o = p.obs
      ELSE /\ StructureOk(o)
           /\ r.code = IF c.e = "avoid" THEN "ok" ELSE o.status
           /\ BurnsOf(o) = NewBurns(c, p)
           /\ MassesOk(o, p.m0)
           /\ o.first = p.obs.first
           /\ o.params = p.params
           /\ o.desired = Desired(c, p.obs.desired, o)
           /\ KeptOk(c, p, o)
           /\ FailureOrOld(c, p, o, p.max,
                           IF c.e = "avoid" THEN c.tmax ELSE c.tmax + Reach)

NewOk(c, r) ==
  LET o == r.obs
  IN  /\ StructureOk(o)
      /\ Len(o.burns) = 0
      /\ o.desired = c.desired
      /\ o.params = c.params
      /\ FailureOk(o, c.max_steps, c.tmax + Reach)

\* The plan is read after prolonging the ephemeris as needed.
ReadOk(c, p, r) ==
  LET o == r.obs
      end == o.segments[Len(o.segments)].target
  IN  /\ StructureOk(o)
      /\ BurnsOf(o) = c.burns \* Their initial times are specified.
      /\ MassesOk(o, p.m0)
      /\ o.first = p.obs.first
      /\ o.params = p.params
      /\ o.desired = Desired(c, p.obs.desired, o)
      /\ FailureOk(o, p.max, IF c.tmax + Reach < end + 1 THEN end + 1
                             ELSE c.tmax + Reach)

Return ==
  /\ IsEvent("done")
  /\ call.e # ""
  /\ Event.k = call.k
  /\ Event.others
  /\ Event.tmax >= call.tmax
  /\ call' = NoCall
  /\ CASE call.e = "new" ->
            /\ NewOk(call, Event) = TRUE
            /\ x' = [x EXCEPT ![call.k] =
                 [alive |-> TRUE, m0 |-> call.m0, max |-> call.max_steps,
                  params |-> call.params, obs |-> Event.obs]]
       [] call.e = "copy" ->
            /\ Event.obs = x[call.from].obs
            /\ x' = [x EXCEPT ![call.k] = x[call.from]]
       [] call.e = "read" ->
            /\ ReadOk(call, x[call.from], Event) = TRUE
            /\ x' = [x EXCEPT ![call.k] =
                 [x[call.from] EXCEPT !.obs = Event.obs]]
       [] call.e = "destroy" ->
            x' = [x EXCEPT ![call.k] = None]
       [] OTHER ->
            /\ EditOk(call, x[call.k], Event) = TRUE
            /\ x' = [x EXCEPT ![call.k].obs = Event.obs]

TraceNext ==
  \/ \E op \in {"new", "insert", "replace", "remove", "final", "avoid", "copy",
                "read", "destroy"} :
       /\ IsEvent(op)
       /\ call' = Event
       /\ UNCHANGED x
  \/ /\ IsEvent("params")
     /\ call' = Event
     /\ x' = [x EXCEPT ![Event.k].max = Event.max_steps,
                       ![Event.k].params = Event.params]
  \/ Return
  \/ IsEvent("end") /\ UNCHANGED vars

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tr, l>>
=============================================================================
