----------------------------- MODULE FlightPlan -------------------------------
(***************************************************************************)
(* Flight plans (ksp_plugin/flight_plan.hpp).  A flight plan is a sequence *)
(* of n burns, and of 2n+1 segments: coasts and burns alternate.  The      *)
(* segments are computed in order; when one of them cannot be computed to  *)
(* its end (too many steps, or an ephemeris that is too short) it is       *)
(* anomalous, and so are all the ones that follow, which are empty.        *)
(*                                                                         *)
(* A plan is [burns, desired, segments, status, ...] where the segments    *)
(* are records [size, ends, ...].  An edit either has no effect whatsoever *)
(* and returns an error, or changes the sequence of burns in the obvious   *)
(* manner.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

InsertAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

(***************************************************************************)
(* The acceptance of edits.  A burn must be finite; it must lie strictly   *)
(* between the end of the burn that precedes and the beginning of the one  *)
(* that follows or the end of the plan (but replacing the last burn may    *)
(* extend the plan), and the changes of mass must not make the burns that  *)
(* follow overlap.                                                         *)
(***************************************************************************)
InsertCode(c) ==
  IF c.sing THEN "invalid"
  ELSE IF c.after /\ c.before /\ c.chain THEN "apply" ELSE "range"
ReplaceCode(c, last) ==
  IF c.sing THEN "invalid"
  ELSE IF c.after /\ (last \/ c.before) /\ c.chain THEN "apply" ELSE "range"
RemoveCode(c) == IF c.chain THEN "apply" ELSE "range"
FinalCode(c) == IF c.bad THEN "range" ELSE "apply"

(***************************************************************************)
(* The structure of the segments.  `first` is the index of the first       *)
(* segment that doesn't reach its target, if any.                          *)
(***************************************************************************)
FirstAnomalous(segments) ==
  LET S == {j \in 1..Len(segments) : ~segments[j].ends}
  IN  IF S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in S : j <= k

\* The number of anomalous segments, given that of the first one.
AnomalousSegments(n, first) == IF first = 0 THEN 0 ELSE 2 * n + 2 - first
\* The manœuvres which follow an anomalous segment.
AnomalousBurns(n, first) ==
  IF first = 0 THEN 0 ELSE (AnomalousSegments(n, first) - 1) \div 2

StructureOk(p) ==
  LET n == Len(p.burns)
      first == FirstAnomalous(p.segments)
  IN  /\ Len(p.segments) = 2 * n + 1
      /\ p.joined
      /\ p.anomalous = AnomalousBurns(n, first)
      /\ (p.status = "ok") = (first = 0)
      /\ p.status \in {"ok", "steps", "deadline"}
      /\ \A j \in 1..Len(p.segments) :
           /\ p.segments[j].size >= 1
           /\ ~p.segments[j].past
           \* A complete or truncated integration gives the same result as an
           \* independent one.
           /\ p.segments[j].ref # "different"
           \* What follows an anomalous segment is empty.
           /\ (first > 0 /\ j > first => p.segments[j].size = 1)

\* A failure is only possible if its cause exists.
FailureOk(p, max_steps, reach) ==
  LET first == FirstAnomalous(p.segments)
      s == p.segments[first]
  IN  CASE p.status = "ok" -> TRUE
        [] p.status = "steps" -> s.size - 1 = max_steps
        [] p.status = "deadline" ->
             /\ s.target >= reach
             /\ s.size - 1 <= max_steps

MassesOk(p, m0) ==
  /\ \A i \in 1..Len(p.burns) :
       /\ p.burns[i].rocket
       /\ p.burns[i].thrust
       /\ p.burns[i].m0 = IF i = 1 THEN m0 ELSE p.burns[i - 1].m1

BurnsOf(p) == [i \in 1..Len(p.burns) |-> p.burns[i].burn]

\* The last coast is reached.
LastReached(p) ==
  LET first == FirstAnomalous(p.segments)
  IN  first = 0 \/ first = Len(p.segments)
=============================================================================
