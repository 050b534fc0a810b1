----------------------------- MODULE Checkpointer -----------------------------
(***************************************************************************)
(* A checkpointer (physics/checkpointer.hpp): a set of checkpoints indexed *)
(* by time, each with the state that the writer produced.  The times are   *)
(* integers; PosInf and NegInf stand for the infinite instants.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  cps,    \* A function from the times to the states written.
  written \* The number of times that the writer was called.

vars == <<cps, written>>

PosInf == 1000000
NegInf == -1000000

Times == DOMAIN cps
Before(t) == {u \in Times : u <= t}
After(t) == {u \in Times : u >= t}
Between(a, b) == Before(b) \cap After(a)
Max(S) == IF S = {} THEN NegInf ELSE CHOOSE x \in S : \A y \in S : y <= x
Min(S) == IF S = {} THEN PosInf ELSE CHOOSE x \in S : \A y \in S : y >= x
Oldest == Min(Times)
Newest == Max(Times)

Init == cps = [t \in {} |-> 0] /\ written = 0

\* The writer gives increasing values to the states.
Put(t) ==
  /\ written' = written + 1
  /\ cps' = [u \in Times \cup {t} |-> IF u = t THEN written + 1 ELSE cps[u]]

Write(t) == t \notin Times /\ Put(t)

Needed(t, max) == Times = {} \/ t - Newest > max

WriteIfNeeded(t, max, done) ==
  IF Needed(t, max) THEN done /\ Write(t) ELSE ~done /\ UNCHANGED vars

\* Whether writing is an error.
WriteDies(t) == t \in Times
NeededDies(t, max) == Needed(t, max) /\ t \in Times

\* The checkpoint to which a request to read applies: NegInf or PosInf if there
\* is none.
Target(kind, t) ==
  CASE kind = "oldest" -> Oldest
    [] kind = "newest" -> Newest
    [] kind = "before" -> Max(Before(t))
    [] kind = "at" -> IF t \in Times THEN t ELSE NegInf
Found(kind, t) == Target(kind, t) \in Times

\* Serialization, with a rewriting of the states.
RoundTrip(F(_)) ==
  /\ cps' = [t \in Times |-> F(cps[t])]
  /\ UNCHANGED written

-----------------------------------------------------------------------------
NeverRemoved == [][Times \subseteq DOMAIN cps']_vars
OneByOne == [][Cardinality(DOMAIN cps' \ Times) <= 1]_vars
Consistent ==
  /\ Times = {} <=> Oldest = PosInf
  /\ Times = {} <=> Newest = NegInf
  /\ \A t \in Times : Oldest <= t /\ t <= Newest
  /\ \A t \in Times : Max(Before(t)) = t /\ Min(After(t)) = t
  /\ \A t \in Times : Max(Before(t - 1)) < t /\ Min(After(t + 1)) > t
=============================================================================
