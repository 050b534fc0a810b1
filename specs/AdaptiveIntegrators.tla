------------------------- MODULE AdaptiveIntegrators -------------------------
(***************************************************************************)
(* The contract of the adaptive integrators, as a predicate on what can be *)
(* observed during one call to `Solve`: a log of the steps that are tried  *)
(* and rejected ("R"), tried and accepted ("A"), and of the points that    *)
(* are appended ("P").  Times are counted in the direction of the          *)
(* integration.  The fields are:                                           *)
(*   R, A: over    the step goes strictly beyond the target;               *)
(*         rest    comparison of the step with the time to the target;     *)
(*         smaller the step is smaller than the one tried before;          *)
(*         sign    the step has the sign of the first step;                *)
(*         hash    the state from which the step is tried;                 *)
(*         err     the right-hand side returned an error for that step;    *)
(*         n       the number of points already appended;                  *)
(*   P:    cmp     comparison of the time with the target;                 *)
(*         mono    the time is strictly after the previous one;            *)
(*         tiny    the step is of the order of the rounding of the time;   *)
(*         dt      the time is after the previous one by the step;         *)
(*         close   the state is as accurate as the tolerance lets expect;  *)
(*         hash    the state;                                              *)
(*         n       the number of points appended.                          *)
(* A problem has fields max (number of steps), exact and fault (the error  *)
(* that the right-hand side returns).                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Faulty(ts) == \E j \in 1..Len(ts) : ts[j].kind = "A" /\ ts[j].err

\* The state before the j-th element of the log.  A step that is rejected
\* doesn't change the state, and one that is accepted is followed by a point.
StateBefore(ts, j, initial) == IF j = 1 THEN initial ELSE ts[j - 1].hash

\* True if the integration must stop after the point `j`.
AtEnd(p, ts, j) == p.exact /\ ts[j - 1].rest = "eq"
AbortsAt(p, ts, j) == p.fault = "aborted" /\ ts[j - 1].err
MaxedAt(p, ts, j) == ts[j].n = p.max
StopsAt(p, ts, j) == AtEnd(p, ts, j) \/ AbortsAt(p, ts, j) \/ MaxedAt(p, ts, j)

LogOk(p, ts, initial) ==
  /\ Len(ts) > 0
  /\ ts[1].kind # "P"
  /\ \A j \in 1..Len(ts) :
       LET t == ts[j] IN
       \/ /\ t.kind \in {"R", "A"}
          /\ t.sign
          /\ (p.exact => t.rest \in {"lt", "eq"})
          /\ t.hash = StateBefore(ts, j, initial)
          /\ t.n = (IF j = 1 THEN 0 ELSE ts[j - 1].n)
          \* A rejected step is tried again with a smaller step.
          /\ ((j > 1 /\ ts[j - 1].kind = "R") => t.smaller)
          /\ (t.kind = "A" =>
                IF ~p.exact /\ t.over
                THEN j = Len(ts)
                ELSE j < Len(ts) /\ ts[j + 1].kind = "P")
          /\ (t.kind = "R" /\ j < Len(ts) => ts[j + 1].kind \in {"R", "A"})
       \/ /\ t.kind = "P"
          /\ j > 1 /\ ts[j - 1].kind = "A"
          /\ t.n = ts[j - 1].n + 1
          \* The first and last steps may be too small to change the time.
          /\ (t.mono \/ t.tiny)
          /\ t.dt /\ t.close
          /\ t.cmp \in {"lt", "eq"}
          \* Because the time has an error term, it may round to the target one
          \* step too early.
          /\ (AtEnd(p, ts, j) => t.cmp = "eq")
          /\ (j < Len(ts) => ~StopsAt(p, ts, j))
          /\ (j < Len(ts) => ts[j + 1].kind \in {"R", "A"})

\* The result, given a log.
CodeOf(p, ts) ==
  LET n == Len(ts)
      last == ts[n]
      done == IF Faulty(ts) THEN p.fault ELSE "ok"
  IN  CASE last.kind = "R" -> "vanishing"
        [] last.kind = "A" -> done
        [] AbortsAt(p, ts, n) -> "aborted"
        [] AtEnd(p, ts, n) -> done
        [] MaxedAt(p, ts, n) -> "steps"
        [] OTHER -> "should not have stopped"

\* The state of the instance after the call: the last one appended, except that
\* if the last step was shortened to reach the target it is not retained.
StateAfter(p, ts, initial) ==
  LET n == Len(ts)
  IN  IF ts[n].kind = "P" /\ AtEnd(p, ts, n) /\ ~AbortsAt(p, ts, n)
      THEN ts[n - 1].hash
      ELSE StateBefore(ts, n + 1, initial)

\* An instance may not be used if the target is not ahead of it, or again if
\* the last step is exact.
MaySolve(p, used, ahead) == ahead /\ ~(p.exact /\ used)
=============================================================================
