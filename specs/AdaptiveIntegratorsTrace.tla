----------------------- MODULE AdaptiveIntegratorsTrace -----------------------
(* Validates executions of the adaptive integrators against the contract of  *)
(* AdaptiveIntegrators.  Instances with the same history (through clonings   *)
(* and serializations) must compute exactly the same thing.                  *)
EXTENDS AdaptiveIntegrators, TraceCommon

VARIABLES x,     \* The instances.
          call,
          known, \* Set of <<history, result>>.
          dead
vars == <<x, call, known, dead>>

K == 1..3
None == [p |-> 0, used |-> FALSE, hash |-> "", step |-> "", history |-> <<>>]

TraceInit ==
  /\ CommonInit
  /\ x = [k \in K |-> None]
  /\ call = <<>>
  /\ known = {}
  /\ dead = FALSE

Functional(s) == Cardinality({a[1] : a \in s}) = Cardinality(s)

P(k) == Cfg.ps[x[k].p]

Permitted == MaySolve(P(call[1]), x[call[1]].used, call[3])

\* The step is the one that the instance was created with, or the last one of
\* the previous call; unless it has to be shortened.
FirstStepOk(i, p, e) ==
  \/ p.exact /\ e.ts[1].rest = "eq"
  \/ IF ~i.used THEN e.ts[1].first
     ELSE i.step = "" \/ i.step = e.ts[1].h

StepAfter(e) ==
  IF e.code = "vanishing" THEN ""
  ELSE LET n == Len(e.ts)
       IN  IF e.ts[n].kind = "P" THEN e.ts[n - 1].h ELSE e.ts[n].h

TraceNext ==
  \/ /\ ~dead
     /\ \/ /\ IsEvent("new")
           /\ x' = [x EXCEPT ![Event.k] =
                [None EXCEPT !.p = Event.p, !.history = <<Event.p>>]]
           /\ UNCHANGED <<call, known, dead>>
        \/ /\ IsEvent("solve")
           /\ call' = <<Event.k, Event.tf, Event.ahead>>
           /\ UNCHANGED <<x, known, dead>>
        \/ /\ IsEvent("solved")
           /\ Permitted = TRUE
           /\ LET k == Event.k
                  i == x[k]
                  h == Append(i.history, call[2])
              IN  /\ LogOk(P(k), Event.ts, i.hash) = TRUE
                  /\ Event.code = CodeOf(P(k), Event.ts)
                  /\ Event.hash = StateAfter(P(k), Event.ts, i.hash)
                  /\ FirstStepOk(i, P(k), Event) = TRUE
                  /\ known' = known \cup {<<h, <<Event.log, Event.hash>>>>}
                  /\ Functional(known') = TRUE
                  /\ x' = [x EXCEPT ![k] =
                       [@ EXCEPT !.used = TRUE,
                                 !.hash = Event.hash,
                                 !.step = StepAfter(Event),
                                 !.history = h]]
           /\ call' = <<>>
           /\ UNCHANGED dead
        \/ /\ IsEvent("died")
           /\ call # <<>>
           /\ Permitted = FALSE
           /\ dead' = TRUE
           /\ UNCHANGED <<x, call, known>>
        \/ /\ IsEvent("clone")
           /\ x' = [x EXCEPT ![Event.j] = x[Event.k]]
           /\ UNCHANGED <<call, known, dead>>
        \/ /\ IsEvent("look")
           /\ IF x[Event.k].hash = ""
              THEN \* The initial state.
                   x' = [x EXCEPT ![Event.k].hash = Event.hash]
              ELSE x' = x /\ Event.hash = x[Event.k].hash
           /\ UNCHANGED <<call, known, dead>>
        \/ /\ IsEvent("end")
           /\ UNCHANGED vars

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tr, l>>
=============================================================================
