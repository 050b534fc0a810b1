---------------------------- MODULE EphemerisTrace ----------------------------
(* Validates executions of the real code against Ephemeris.  The values of  *)
(* the trajectories and the checkpoints are recorded when first observed and *)
(* must be the same in all the ephemerides of an execution, since they all   *)
(* derive from the same initial state.                                       *)
EXTENDS Ephemeris, TraceCommon

VARIABLES x,      \* The ephemerides.
          asked,  \* For each ephemeris, the earliest time requested (halves).
          call,   \* The operation in progress.
          msg,    \* The messages, as sets of checkpoints.
          known,  \* The set of <<batch, hash>> observed.
          cknown, \* The set of <<time, hash>> of the checkpoints.
          dead
vars == <<x, asked, call, msg, known, cknown, dead>>

K == 1..3
Never == 1000000
Days == Cfg.days

TraceInit ==
  /\ CommonInit
  /\ x = [k \in K |-> NewEphemeris]
  /\ asked = [k \in K |-> Never]
  /\ call = <<>>
  /\ msg = [m \in 1..3 |-> {}]
  /\ known = {} /\ cknown = {}
  /\ dead = FALSE

Quiet == UNCHANGED <<call, msg, known, cknown, dead>>

\* The possible current states of an ephemeris, given the reanimations that are
\* in flight.
Now(k) == IF asked[k] = Never THEN {x[k]} ELSE Reanimations(x[k], asked[k])

MinText(e) == IF Empty(e) THEN "+inf" ELSE ToString(TMin(e))
MaxText(e) == IF Empty(e) THEN "-inf" ELSE ToString(TMax(e))

Elements(s) == {s[i] : i \in 1..Len(s)}
Functional(s) == Cardinality({a[1] : a \in s}) = Cardinality(s)

ObsOk(e, o) ==
  /\ o.bodies /\ o.ok
  /\ o.empty = Empty(e)
  /\ o.max = MaxText(e)
  /\ o.min = MinText(e)
  \* The reanimation may have progressed while observing.
  /\ Len(o.bs) = (IF Empty(e) THEN 0 ELSE BatchOf(e.inst) - e.first)
  /\ \A i \in 1..Len(o.bs) :
       /\ o.bs[i].b = Batch * (e.first + i - 1)
       /\ o.bs[i].agree /\ o.bs[i].close

TraceNext ==
  \/ /\ ~dead
     /\ \/ /\ IsEvent("new")
           /\ x' = [x EXCEPT ![Event.k] = NewEphemeris]
           /\ asked' = [asked EXCEPT ![Event.k] = Never]
           /\ Quiet
        \/ /\ IsEvent("prolong")
           /\ call' = <<Event.k, Event.t2, Event.max>>
           /\ UNCHANGED <<x, asked, msg, known, cknown, dead>>
        \/ /\ IsEvent("prolonged")
           /\ Event.ok
           /\ call' = <<>>
           /\ \E f \in {Prolonged(e, call[2], call[3], Days) :
                                e \in Now(Event.k)} :
                /\ Event.max = MaxText(f)
                /\ x' = [x EXCEPT ![Event.k] = f]
           /\ UNCHANGED <<asked, msg, known, cknown, dead>>
        \/ /\ IsEvent("request")
           /\ asked' = [asked EXCEPT
                ![Event.k] = IF Event.t2 < @ THEN Event.t2 ELSE @]
           /\ UNCHANGED x /\ Quiet
        \/ /\ IsEvent("await")
           /\ asked' = [asked EXCEPT
                ![Event.k] = IF Event.t2 < @ THEN Event.t2 ELSE @]
           /\ call' = <<Event.t2>>
           /\ UNCHANGED <<x, msg, known, cknown, dead>>
        \/ /\ IsEvent("awaited")
           /\ \E e \in Now(Event.k) :
                /\ ~Empty(e) /\ 2 * TMin(e) <= call[1]
                /\ Event.min = MinText(e)
                /\ x' = [x EXCEPT ![Event.k] = e]
           /\ call' = <<>>
           /\ UNCHANGED <<asked, msg, known, cknown, dead>>
        \/ /\ IsEvent("obs")
           /\ \E e \in Now(Event.k) :
                /\ ObsOk(e, Event) = TRUE
                /\ x' = [x EXCEPT ![Event.k] = e]
           /\ known' = known \cup {<<b.b, b.hash>> : b \in Elements(Event.bs)}
           /\ Functional(known') = TRUE
           /\ UNCHANGED <<asked, call, msg, cknown, dead>>
        \/ /\ IsEvent("write")
           /\ call' = <<Event.k>>
           /\ UNCHANGED <<x, asked, msg, known, cknown, dead>>
        \/ /\ IsEvent("written")
           /\ Event.ok
           /\ \E e \in {Written(x[call[1]])} :
                /\ x' = [x EXCEPT ![call[1]] = e]
                /\ e.cps = {Event.cps[i].t : i \in 1..Len(Event.cps)}
                /\ msg' = [msg EXCEPT ![Event.m] = e.cps]
           /\ (\A i \in 1..Len(Event.cps) - 1 :
                 Event.cps[i].t < Event.cps[i + 1].t) = TRUE
           /\ cknown' = cknown \cup {<<c.t, c.hash>> : c \in Elements(Event.cps)}
           /\ Functional(cknown') = TRUE
           /\ call' = <<>>
           /\ UNCHANGED <<asked, known, dead>>
        \/ /\ IsEvent("read")
           /\ IF CanRead(msg[Event.m], Event.t2)
              THEN /\ x' = [x EXCEPT ![Event.k] = ReadAt(msg[Event.m], Event.t2)]
                   /\ asked' = [asked EXCEPT ![Event.k] = Never]
                   /\ Quiet
              ELSE /\ dead' = TRUE
                   /\ UNCHANGED <<x, asked, call, msg, known, cknown>>
        \/ IsEvent("end") /\ UNCHANGED vars
  \/ dead /\ IsEvent("died") /\ UNCHANGED vars

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tr, l>>

\* The ephemerides are always consistent.
TraceInv ==
  \A k \in K :
    /\ \A c \in x[k].cps : 0 <= c
    /\ x[k].oldest # -1 => x[k].oldest \in x[k].cps /\ x[k].oldest <= x[k].inst
=============================================================================
