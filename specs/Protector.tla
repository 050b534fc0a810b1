------------------------------ MODULE Protector ------------------------------
(***************************************************************************)
(* A protector (physics/protector.hpp) used by several threads, whose      *)
(* callbacks may call it back.  Each thread has a stack of operations; an  *)
(* operation takes effect atomically (Commit), then runs the callbacks     *)
(* that it released, in the order of time and with no lock held, and       *)
(* returns.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Thread

VARIABLES
  prot,    \* The bag of protections: from start times to positive counts.
  pending, \* The set of delayed callbacks, as records [id, t].
  ran,     \* The callbacks that were run.
  stack    \* For each thread, the stack of its operations.

vars == <<prot, pending, ran, stack>>

Starts == DOMAIN prot
Unprotected(t, p) == \A s \in DOMAIN p : s >= t

Init ==
  /\ prot = [t \in {} |-> 0]
  /\ pending = {}
  /\ ran = {}
  /\ stack = [h \in Thread |-> <<>>]

Top(h) == stack[h][Len(stack[h])]
SetTop(h, f) == stack' = [stack EXCEPT ![h] = [@ EXCEPT ![Len(@)] = f]]
Push(h, f) == stack' = [stack EXCEPT ![h] = Append(@, f)]
Pop(h) == stack' = [stack EXCEPT ![h] = SubSeq(@, 1, Len(@) - 1)]
\* Operations may only be called by an idle thread, or by a callback.
MayCall(h) == IF stack[h] = <<>> THEN TRUE ELSE Top(h).k = "callback"
Returning(h, k) == IF stack[h] = <<>> THEN FALSE ELSE Top(h).k = k

\* Calls.
Call(h, f) == MayCall(h) /\ Push(h, f) /\ UNCHANGED <<prot, pending, ran>>
CallProtect(h, t) == Call(h, [k |-> "protect", t |-> t])
CallUnprotect(h, t) == Call(h, [k |-> "unprotect", t |-> t])
CallRun(h, id, t) == Call(h, [k |-> "run", id |-> id, t |-> t])

\* Effects.
Added(p, t) == [s \in DOMAIN p \cup {t} |->
                 IF s = t THEN (IF t \in DOMAIN p THEN p[t] ELSE 0) + 1 ELSE p[s]]
Removed(p, t) == IF p[t] > 1 THEN [p EXCEPT ![t] = @ - 1]
                 ELSE [s \in DOMAIN p \ {t} |-> p[s]]

CommitProtect(h) ==
  /\ Returning(h, "protect")
  /\ prot' = Added(prot, Top(h).t)
  /\ SetTop(h, [k |-> "done", op |-> "protect", todo |-> {}, r |-> FALSE])
  /\ UNCHANGED <<pending, ran>>

CommitUnprotect(h) ==
  /\ Returning(h, "unprotect")
  /\ Top(h).t \in Starts
  /\ LET p == Removed(prot, Top(h).t)
         free == {c \in pending : Unprotected(c.t, p)} IN
     /\ prot' = p
     /\ pending' = pending \ free
     /\ SetTop(h, [k |-> "done", op |-> "unprotect", todo |-> free, r |-> FALSE])
  /\ UNCHANGED ran

CommitRun(h) ==
  /\ Returning(h, "run")
  /\ LET c == [id |-> Top(h).id, t |-> Top(h).t] IN
     IF Unprotected(c.t, prot)
     THEN /\ SetTop(h, [k |-> "done", op |-> "run", todo |-> {c}, r |-> TRUE])
          /\ UNCHANGED <<prot, pending, ran>>
     ELSE /\ pending' = pending \cup {c}
          /\ SetTop(h, [k |-> "done", op |-> "run", todo |-> {}, r |-> FALSE])
          /\ UNCHANGED <<prot, ran>>

Commit(h) == CommitProtect(h) \/ CommitUnprotect(h) \/ CommitRun(h)

\* A callback is run, after those for earlier times.
BeginCallback(h, id) ==
  /\ Returning(h, "done")
  /\ \E c \in Top(h).todo :
       /\ c.id = id
       /\ \A d \in Top(h).todo : c.t <= d.t
       /\ stack' = [stack EXCEPT ![h] =
            Append([@ EXCEPT ![Len(@)].todo = @ \ {c}], [k |-> "callback", id |-> id])]
  /\ ran' = ran \cup {id}
  /\ UNCHANGED <<prot, pending>>

EndCallback(h, id) ==
  /\ Returning(h, "callback")
  /\ Top(h).id = id
  /\ Pop(h)
  /\ UNCHANGED <<prot, pending, ran>>

Return(h, op, r) ==
  /\ Returning(h, "done")
  /\ Top(h).op = op
  /\ Top(h).todo = {}
  /\ Top(h).r = r
  /\ Pop(h)
  /\ UNCHANGED <<prot, pending, ran>>

-----------------------------------------------------------------------------
\* The callbacks which were released and did not run yet.
Released == UNION {UNION {IF stack[h][i].k = "done" THEN stack[h][i].todo ELSE {}
                          : i \in DOMAIN stack[h]} : h \in Thread}
\* A delayed callback is protected.
DelayedIffProtected == \A c \in pending : \E s \in Starts : s < c.t
\* Callbacks run at most once.
OnlyOnce ==
  /\ \A c \in pending \cup Released : c.id \notin ran
  /\ \A c \in pending : c \notin Released
\* When no protection is left and no operation is in progress, all the callbacks
\* were run.
NothingLost == Starts = {} => pending = {}
=============================================================================
