----------------------------- MODULE ThreadPool -----------------------------
(***************************************************************************)
(* The observable behaviour of base/thread_pool.  Clients issue operations *)
(* that take effect atomically at some instant between their invocation    *)
(* and their return; calls are queued, taken by the threads of the pool in *)
(* the order of the queue, executed, and their result is delivered to the  *)
(* future of the call.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Call,       \* The identities of the calls.
          Client,     \* The clients of the pool.
          Sizes       \* The possible numbers of threads.

None == [k |-> "none"]
Forever == -1

VARIABLES
  size,      \* The number of threads.
  queue,     \* The calls waiting, in the order in which they were accepted.
  call,      \* The progress of each call.
  op,        \* The operation being executed by each client.
  pool,      \* "open", "closing", "shutdown", "closed"
  now

vars == <<size, queue, call, op, pool, now>>

CallState ==
  {"new", "queued", "taken", "running", "returned", "set", "released"}
\* The calls that occupy a thread.
Busy == {t \in Call : call[t] \in {"taken", "running", "returned", "set"}}
HasResult(t) == call[t] \in {"set", "released"}
CanServe == Len(queue) + 1 <= size - Cardinality(Busy)

Init ==
  /\ size \in Sizes
  /\ queue = <<>>
  /\ call = [t \in Call |-> "new"]
  /\ op = [c \in Client |-> None]
  /\ pool = "open"
  /\ now = 0

Invoke(c, o) ==
  /\ pool = "open"
  /\ op[c] = None
  /\ op' = [op EXCEPT ![c] = o]
  /\ UNCHANGED <<size, queue, call, pool, now>>

Return(c, o) ==
  /\ op[c] = o
  /\ op' = [op EXCEPT ![c] = None]
  /\ UNCHANGED <<size, queue, call, pool, now>>

(* The effects of the operations.  *)

Enqueue(t) ==
  /\ call[t] = "new"
  /\ call' = [call EXCEPT ![t] = "queued"]
  /\ queue' = Append(queue, t)

InvokeAdd(c, t) == Invoke(c, [k |-> "add", t |-> t])
EffectAdd(c) ==
  /\ op[c].k = "add"
  /\ Enqueue(op[c].t)
  /\ op' = [op EXCEPT ![c] = [k |-> "added", t |-> op[c].t]]
  /\ UNCHANGED <<size, pool, now>>
ReturnAdd(c, t) == Return(c, [k |-> "added", t |-> t])

InvokeTry(c, t) == Invoke(c, [k |-> "try", t |-> t])
EffectTry(c) ==
  /\ op[c].k = "try"
  /\ IF CanServe THEN Enqueue(op[c].t) ELSE UNCHANGED <<size, call, queue>>
  /\ op' = [op EXCEPT ![c] = [k |-> "tried", t |-> op[c].t, r |-> CanServe]]
  /\ UNCHANGED <<size, pool, now>>
ReturnTry(c, t, r) == Return(c, [k |-> "tried", t |-> t, r |-> r])

InvokeWait(c, d) == Invoke(c, [k |-> "wait", until |-> now + d])
EffectWait(c) ==
  /\ op[c].k = "wait"
  /\ CanServe \/ now >= op[c].until
  /\ op' = [op EXCEPT ![c] = [k |-> "waited", r |-> CanServe]]
  /\ UNCHANGED <<size, queue, call, pool, now>>
ReturnWait(c, r) == Return(c, [k |-> "waited", r |-> r])

InvokeGet(c, t) == Invoke(c, [k |-> "get", t |-> t])
ReturnGet(c, t) == HasResult(t) /\ Return(c, [k |-> "get", t |-> t])

(* The threads. *)

CanTake ==
  /\ queue # <<>>
  /\ pool \in {"open", "closing"}
  /\ Cardinality(Busy) < size

Take ==
  /\ CanTake
  /\ call' = [call EXCEPT ![Head(queue)] = "taken"]
  /\ queue' = Tail(queue)
  /\ UNCHANGED <<size, op, pool, now>>

Progress(t, from, to) ==
  /\ call[t] = from
  /\ call' = [call EXCEPT ![t] = to]
  /\ UNCHANGED <<size, queue, op, pool, now>>

Start(t) == Progress(t, "taken", "running")
Finish(t) == Progress(t, "running", "returned")
SetResult(t) == Progress(t, "returned", "set")
Release(t) == Progress(t, "set", "released")

(* Destruction. *)
Destroy ==
  /\ pool = "open"
  /\ \A c \in Client : op[c] = None
  /\ pool' = "closing"
  /\ UNCHANGED <<size, queue, call, op, now>>

Shutdown ==
  /\ pool = "closing"
  /\ pool' = "shutdown"
  /\ UNCHANGED <<size, queue, call, op, now>>

Destroyed ==
  /\ pool = "shutdown"
  /\ Busy = {}
  /\ pool' = "closed"
  /\ UNCHANGED <<size, queue, call, op, now>>

\* Nothing that can proceed waits for the clock: time only passes if all the
\* threads are waiting, or if a call lets it pass.
Tick(n) ==
  /\ n > now
  /\ ~CanTake
  /\ \A t \in Call : call[t] \notin {"taken", "returned", "set"}
  /\ \A c \in Client :
       /\ op[c].k \in {"none", "wait", "get"}
       /\ op[c].k = "wait" => ~CanServe /\ n <= op[c].until
       /\ op[c].k = "get" => ~HasResult(op[c].t)
  /\ pool # "closing"
  /\ now' = n
  /\ UNCHANGED <<size, queue, call, op, pool>>

-----------------------------------------------------------------------------
(* Properties. *)

TypeOK ==
  /\ call \in [Call -> CallState]
  /\ pool \in {"open", "closing", "shutdown", "closed"}

\* Never more calls run than there are threads.
Bounded == Cardinality(Busy) <= size

\* The queue has each waiting call exactly once.
QueueIsWaiting ==
  /\ \A t \in Call :
       call[t] = "queued" <=> \E i \in 1..Len(queue) : queue[i] = t
  /\ \A i, j \in 1..Len(queue) : queue[i] = queue[j] => i = j

\* No call is executed after the destruction.
NoCallAfterClose == pool = "closed" => Busy = {}

\* Calls are executed at most once and progress through all the stages.
Rank(s) == CASE s = "new" -> 0 [] s = "queued" -> 1 [] s = "taken" -> 2
             [] s = "running" -> 3 [] s = "returned" -> 4 [] s = "set" -> 5
             [] s = "released" -> 6
Once == [][\A t \in Call : Rank(call'[t]) - Rank(call[t]) \in {0, 1}]_vars

\* Calls are taken in the order in which they were queued.
InOrder ==
  [][\A t \in Call : (call[t] = "queued" /\ call'[t] = "taken") =>
       queue[1] = t]_vars

\* After the shutdown no waiting call is ever taken.
NotTakenAfterShutdown ==
  [][(pool \in {"shutdown", "closed"}) =>
       \A t \in Call : call[t] = "queued" => call'[t] = "queued"]_vars
=============================================================================
