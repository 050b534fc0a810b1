------------------------- MODULE AdaptiveIntegratorsMC -------------------------
(* The algorithm of the embedded Runge-Kutta integrators, with an arbitrary   *)
(* error estimate: it satisfies the contract, and the contract implies the    *)
(* documented guarantees on the points.  Times and steps are integers, and a  *)
(* step vanishes when it is 0.                                                *)
EXTENDS AdaptiveIntegrators

CONSTANTS T,      \* The largest time.
          H,      \* The largest step.
          Max,    \* The maximal number of steps.
          Solves  \* The number of calls.

VARIABLES p,     \* The problem.
          t, h,  \* The time and the next step of the instance.
          used,
          pc,    \* "idle", "try", "decide"
          tf, ts, count, ratio, prev, final,
          first, \* The time when the current call started.
          code, calls

vars == <<p, t, h, used, pc, tf, ts, count, ratio, prev, final, first, code,
          calls>>

Init ==
  /\ p \in [max : 1..Max, exact : BOOLEAN, fault : {"ok", "aborted", "range"}]
  /\ t = 0 /\ h \in 1..H
  /\ used = FALSE
  /\ pc = "idle"
  /\ tf = 0 /\ ts = <<>> /\ count = 0 /\ ratio = "" /\ prev = 0 /\ final = 0
  /\ first = 0
  /\ code = "" /\ calls = 0

Solve(target) ==
  /\ pc = "idle" /\ calls < Solves
  /\ code # "vanishing"  \* The step is lost.
  /\ MaySolve(p, used, target > t)
  /\ tf' = target /\ first' = t
  /\ used' = TRUE /\ calls' = calls + 1
  /\ ts' = <<>> /\ count' = 0 /\ ratio' = "" /\ prev' = 0 /\ code' = ""
  /\ pc' = "try"
  /\ UNCHANGED <<p, t, h, final>>

\* The step is clipped to reach exactly the target.
Clip(s) == IF p.exact /\ t + s >= tf THEN tf - t ELSE s

Cmp(a, b) == IF a < b THEN "lt" ELSE IF a = b THEN "eq" ELSE "gt"

Entry(kind, s, err) ==
  [kind |-> kind, over |-> t + s > tf, rest |-> Cmp(s, tf - t),
   smaller |-> s < prev, sign |-> s > 0, hash |-> t, err |-> err,
   n |-> count]

Stop(c) == pc' = "idle" /\ code' = c

Faulted == IF Faulty(ts') THEN p.fault ELSE "ok"

Try(accept, err) ==
  /\ pc = "try"
  /\ err => p.fault # "ok"
  /\ LET s == Clip(h) IN
     /\ h' = s /\ prev' = s
     /\ IF ~accept
        THEN /\ ts' = Append(ts, Entry("R", s, err))
             /\ pc' = "shrink"
             /\ UNCHANGED <<t, count, final, code>>
        ELSE IF ~p.exact /\ t + s > tf
        THEN /\ ts' = Append(ts, Entry("A", s, err))
             /\ Stop(Faulted)
             /\ UNCHANGED <<t, count, final>>
        ELSE LET point == [kind |-> "P", cmp |-> Cmp(t + s, tf), mono |-> s > 0,
                           dt |-> TRUE, tiny |-> FALSE,
                           close |-> TRUE, hash |-> t + s,
                           n |-> count + 1]
             IN  /\ ts' = ts \o <<Entry("A", s, err), point>>
                 /\ count' = count + 1
                 /\ final' = t
                 /\ IF err /\ p.fault = "aborted"
                    THEN Stop("aborted") /\ t' = t + s
                    ELSE IF p.exact /\ t + s = tf
                    THEN Stop(Faulted) /\ t' = t \* Not retained.
                    ELSE IF count' = p.max
                    THEN Stop("steps") /\ t' = t + s
                    ELSE pc' = "grow" /\ code' = "" /\ t' = t + s
  /\ UNCHANGED <<p, used, tf, ratio, first, calls>>

Adapt(s) ==
  /\ pc \in {"shrink", "grow"}
  /\ pc = "shrink" => s < h
  /\ h' = s
  /\ IF s = 0 THEN Stop("vanishing") ELSE pc' = "try" /\ code' = ""
  /\ UNCHANGED <<p, t, used, tf, ts, count, ratio, prev, final, first, calls>>

Next ==
  \/ \E target \in 1..T : Solve(target)
  \/ \E accept, err \in BOOLEAN : Try(accept, err)
  \/ pc = "shrink" /\ \E s \in 0..H : Adapt(s)
  \/ pc = "grow" /\ \E s \in 1..H : Adapt(s)

Spec == Init /\ [][Next]_vars

Returned == pc = "idle" /\ calls > 0

\* The algorithm satisfies the contract.
Contract ==
  Returned =>
    /\ LogOk(p, ts, first)
    /\ code = CodeOf(p, ts)
    /\ t = StateAfter(p, ts, first)

\* What the contract implies.
Guarantees ==
  (Returned /\ LogOk(p, ts, first)) =>
    LET P == {i \in 1..Len(ts) : ts[i].kind = "P"}
        n == Cardinality(P)
        \* In the order in which the points were appended.
        after(j) == ts[CHOOSE i \in P : ts[i].n = j].hash
        c == CodeOf(p, ts)
    IN  /\ n <= p.max
        /\ \A j \in 1..n : after(j) > first /\ after(j) <= tf
        /\ \A j \in 1..n - 1 : after(j) < after(j + 1)
        /\ (p.exact /\ c = "ok") => n > 0 /\ after(n) = tf
        /\ c = "steps" => n = p.max /\ (p.exact => after(n) < tf)
        /\ c \in {"aborted", "range"} => p.fault = c
        \* The instance is usable again from its last point.
        /\ ~p.exact => t = (IF n = 0 THEN first ELSE after(n))

Monotonic == [][t' >= t]_vars
=============================================================================
