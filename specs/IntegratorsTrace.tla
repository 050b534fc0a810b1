--------------------------- MODULE IntegratorsTrace ---------------------------
(* Validates executions of the fixed-step integrators against Integrators.   *)
(* The states are recorded when first observed at a position, and must be    *)
(* the same in all the instances of an execution that reach it, whatever the *)
(* targets, clonings and serializations along the way.  However, if a method *)
(* reuses an evaluation of the previous step, it starts each integration     *)
(* with an extra evaluation, whose rounding errors may be different; the     *)
(* results then depend on the positions where it was stopped.                *)
EXTENDS Integrators, TraceCommon

VARIABLES x,     \* The instances, with their direction.
          call,  \* The operation in progress.
          known, \* The set of <<<<direction, position>>, hash>> observed.
          dead
vars == <<x, call, known, dead>>

K == 1..3
Points == Cfg.points

TraceInit ==
  /\ CommonInit
  /\ x = [k \in K |-> [p |-> 0, dir |-> 1, stops |-> <<>>]]
  /\ call = <<>>
  /\ known = {}
  /\ dead = FALSE

Elements(s) == {s[i] : i \in 1..Len(s)}
Functional(s) == Cardinality({a[1] : a \in s}) = Cardinality(s)

\* An error returned by the right-hand side is reported; if it is `aborted` the
\* integration stops at the first point whose computation got it.
Stopped(e) == e.fault = "aborted" /\ \E i \in 1..Len(e.ps) : e.ps[i].err

PointsOk(i, e) ==
  LET last == IF Stopped(e)
              THEN (i.p \div Divisor) + Len(e.ps)
              ELSE Reached(i, call[2], Points) \div Divisor
  IN  /\ Len(e.ps) = last - (i.p \div Divisor)
      /\ \A j \in 1..Len(e.ps) :
           /\ e.ps[j].n = (i.p \div Divisor) + j
           /\ e.ps[j].grid /\ e.ps[j].close /\ e.ps[j].even
           /\ (Stopped(e) => (e.ps[j].err <=> j = Len(e.ps)))
      /\ last <= Reached(i, call[2], Points) \div Divisor
      /\ e.p16 = (IF Stopped(e) THEN Divisor * last
                  ELSE Reached(i, call[2], Points))
      /\ e.code = e.fault

\* The key of a position when an integration has been started at `stops`.
Key(i, stops, p) == <<i.dir, p, stops>>
Stops(i) == IF Cfg.reuses THEN Append(i.stops, i.p) ELSE <<>>

Permitted(k, tf) == MaySolve(x[k], tf, Cfg.exact, Points)

TraceNext ==
  \/ /\ ~dead
     /\ \/ /\ IsEvent("new")
           /\ x' = [x EXCEPT ![Event.k] = [p |-> 0, dir |-> Event.dir, stops |-> <<>>]]
           /\ UNCHANGED <<call, known, dead>>
        \/ /\ IsEvent("solve")
           /\ call' = <<Event.k, Event.tf8>>
           /\ UNCHANGED <<x, known, dead>>
        \/ /\ IsEvent("solved")
           /\ Permitted(call[1], call[2]) = TRUE
           /\ PointsOk(x[Event.k], Event) = TRUE
           /\ LET k == Event.k
                  i == x[k]
                  s == IF Len(Event.ps) = 0 THEN i.stops ELSE Stops(i)
              IN  /\ known' = known \cup {<<Key(i, s, Event.p16), Event.hash>>}
                                    \cup {<<Key(i, s, Divisor * a.n), a.hash>> :
                                            a \in Elements(Event.ps)}
                  /\ Functional(known') = TRUE
                  /\ x' = [x EXCEPT ![k].p = Event.p16, ![k].stops = s]
           /\ call' = <<>>
           /\ UNCHANGED dead
        \/ /\ IsEvent("died")
           /\ call # <<>>
           /\ Permitted(call[1], call[2]) = FALSE
           /\ dead' = TRUE
           /\ UNCHANGED <<x, call, known>>
        \/ /\ IsEvent("clone")
           /\ x' = [x EXCEPT ![Event.j] = x[Event.k]]
           /\ UNCHANGED <<call, known, dead>>
        \/ /\ IsEvent("look")
           /\ Event.p16 = x[Event.k].p
           /\ known' = known \cup
                {<<Key(x[Event.k], x[Event.k].stops, Event.p16), Event.hash>>}
           /\ Functional(known') = TRUE
           /\ UNCHANGED <<x, call, dead>>
        \/ /\ IsEvent("end")
           /\ UNCHANGED vars
  \/ dead /\ IsEvent("died") /\ UNCHANGED vars


TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tr, l>>
=============================================================================
