--------------------------- MODULE RecurringThread ---------------------------
(***************************************************************************)
(* The observable behaviour of base/recurring_thread.  Clients put inputs, *)
(* get outputs, start, stop and restart the thread; the thread applies an  *)
(* action to the latest input, no more frequently than at some period.     *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS Client, Input,
          Period

None == -1
NoOp == [k |-> "none"]
Output(v) == 1000 + v

VARIABLES
  has_output, \* Whether the thread produces outputs.
  op,         \* What each client is doing.
  thread,     \* "none", "alive", "stopping"
  lock,       \* The client in a control operation, or None.
  input,      \* The pending input, or None.
  output,     \* The pending output, or None.
  work,       \* What the thread is doing.
  may_act,    \* The earliest instant at which an action may start.
  must_act,   \* The latest instant at which a pending input may be ignored.
  stop_at,    \* The instant at which the stop was requested.
  now,
  life        \* "alive", "dying", "dead": the object.

vars == <<has_output, op, thread, lock, input, output, work, may_act, must_act,
          stop_at, now, life>>

Idle == [k |-> "idle"]
\* The thread is about to end, having noticed that it must stop.
Exited == [k |-> "exited"]
Max(x, y) == IF x > y THEN x ELSE y

Init ==
  /\ has_output \in BOOLEAN
  /\ op = [c \in Client |-> NoOp]
  /\ thread = "none"
  /\ lock = None
  /\ input = None
  /\ output = None
  /\ work = Idle
  /\ may_act = 0
  /\ must_act = 0
  /\ stop_at = 0
  /\ now = 0
  /\ life = "alive"

Invoke(c, o) ==
  /\ op[c] = NoOp
  /\ life = "alive"
  /\ op' = [op EXCEPT ![c] = o]
  /\ UNCHANGED <<stop_at, has_output, thread, lock, input, output, work, may_act,
                 must_act, now, life>>

Return(c, o) ==
  /\ op[c] = o
  /\ op' = [op EXCEPT ![c] = NoOp]
  /\ UNCHANGED <<stop_at, has_output, thread, lock, input, output, work, may_act,
                 must_act, now, life>>

(* The channels. *)
InvokePut(c, v) == Invoke(c, [k |-> "put", v |-> v])
EffectPut(c) ==
  /\ op[c].k = "put"
  /\ input' = op[c].v
  /\ must_act' = IF input = None THEN Max(must_act, now + Period) ELSE must_act
  /\ op' = [op EXCEPT ![c] = [k |-> "putted"]]
  /\ UNCHANGED <<stop_at, has_output, thread, lock, output, work, may_act, now, life>>
ReturnPut(c) == Return(c, [k |-> "putted"])

InvokeGet(c) == Invoke(c, [k |-> "get"])
EffectGet(c) ==
  /\ op[c].k = "get"
  /\ op' = [op EXCEPT ![c] = [k |-> "got", v |-> output]]
  /\ output' = None
  /\ UNCHANGED <<stop_at, has_output, thread, lock, input, work, may_act, must_act, now,
                 life>>
ReturnGet(c, v) == Return(c, [k |-> "got", v |-> v])

(* The control of the thread.  A control operation is exclusive from the    *)
(* moment when it takes effect to the moment when it completes.             *)
InvokeControl(c, k) == k \in {"start", "stop", "restart"} /\
                       Invoke(c, [k |-> k])

BeginControl(c) ==
  /\ op[c].k \in {"start", "stop", "restart"}
  /\ lock = None
  /\ IF op[c].k = "start" \/ thread = "none"
     THEN thread' = IF op[c].k = "stop" THEN "none"
                    ELSE IF thread = "none" THEN "alive" ELSE thread
     ELSE thread' = "stopping"
  /\ may_act' = IF thread = "none" THEN now ELSE may_act
  /\ must_act' = IF thread = "none" \/ thread' = "stopping"
                 THEN Max(must_act, now + Period) ELSE must_act
  /\ stop_at' = now
  /\ IF thread' = "stopping"
     THEN /\ lock' = c
          /\ op' = [op EXCEPT ![c] = [k |-> "stopping", then |-> op[c].k]]
     ELSE /\ lock' = None
          /\ op' = [op EXCEPT ![c] = [k |-> "controlled"]]
  /\ UNCHANGED <<has_output, input, output, work, now, life>>

EndControl(c) ==
  /\ lock = c
  /\ op[c].k = "stopping"
  /\ work = Exited
  /\ work' = Idle
  /\ lock' = None
  /\ op' = [op EXCEPT ![c] = [k |-> "controlled"]]
  /\ thread' = IF op[c].then = "restart" THEN "alive" ELSE "none"
  /\ may_act' = now
  /\ must_act' = now + Period
  /\ UNCHANGED <<stop_at, has_output, input, output, now, life>>

ReturnControl(c) == Return(c, [k |-> "controlled"])

(* The destruction stops the thread. *)
Destroy ==
  /\ life = "alive"
  /\ \A c \in Client : op[c] = NoOp
  /\ life' = "dying"
  /\ UNCHANGED <<stop_at, has_output, op, thread, lock, input, output, work, may_act,
                 must_act, now>>
StopForDestruction ==
  /\ life = "dying"
  /\ thread = "alive"
  /\ thread' = "stopping"
  /\ stop_at' = now
  /\ must_act' = Max(must_act, now + Period)
  /\ UNCHANGED <<has_output, op, lock, input, output, work, may_act, now, life>>
Destroyed ==
  /\ life = "dying"
  /\ \/ thread = "none"
     \/ thread = "stopping" /\ work = Exited
  /\ work' = Idle
  /\ thread' = "none"
  /\ life' = "dead"
  /\ UNCHANGED <<stop_at, has_output, op, lock, input, output, may_act, must_act, now>>

(* The thread. *)

\* What the thread does once it has completed an action.
AfterAction == IF thread = "stopping" THEN Exited ELSE Idle

\* The thread notices that it must stop.
Exit ==
  /\ thread = "stopping"
  /\ work = Idle
  /\ work' = Exited
  /\ UNCHANGED <<stop_at, has_output, op, thread, lock, input, output, may_act, must_act,
                 now, life>>

\* The input is consumed.  A thread that must stop may only do that if it had no
\* time to notice.
Take ==
  /\ thread # "none"
  /\ thread = "stopping" => now = stop_at
  /\ work = Idle
  /\ now >= may_act
  /\ input # None
  /\ work' = [k |-> "taken", v |-> input]
  /\ input' = None
  /\ UNCHANGED <<stop_at, has_output, op, thread, lock, output, may_act, must_act, now,
                 life>>

\* If the thread is stopped between the moment when the input is consumed and
\* the moment when the action is run, the action is not run.
Drop ==
  /\ work.k = "taken"
  /\ thread = "stopping"
  /\ work' = Exited
  /\ UNCHANGED <<stop_at, has_output, op, thread, lock, input, output, may_act, must_act,
                 now, life>>

Act(v) ==
  /\ work = [k |-> "taken", v |-> v]
  /\ work' = [k |-> "acting", v |-> v]
  /\ may_act' = now + Period
  /\ UNCHANGED <<stop_at, has_output, op, thread, lock, input, output, must_act, now,
                 life>>

\* The function returns, with success or failure, and possibly after having been
\* requested to stop.
Finish(v, ok, stopped) ==
  /\ work = [k |-> "acting", v |-> v]
  /\ stopped => thread = "stopping"
  \* The observation of `stopped` immediately precedes this event.
  /\ ~stopped => TRUE
  /\ work' = [k |-> IF ok /\ ~stopped THEN "successful" ELSE "failed", v |-> v]
  /\ UNCHANGED <<stop_at, has_output, op, thread, lock, input, output, may_act, must_act,
                 now, life>>

\* The results of the action are made available and the thread waits for the
\* next cycle.
Publish ==
  /\ work.k = "successful"
  /\ has_output
  /\ output' = Output(work.v)
  /\ work' = AfterAction
  /\ must_act' = now + Period
  /\ UNCHANGED <<stop_at, has_output, op, thread, lock, input, may_act, now, life>>

Abandon ==
  /\ \/ work.k = "failed"
     \/ work.k = "successful" /\ (thread = "stopping" \/ ~has_output)
  /\ work' = AfterAction
  /\ must_act' = now + Period
  /\ UNCHANGED <<stop_at, has_output, op, thread, lock, input, output, may_act, now,
                 life>>

\* Time passes only if everybody waits.  An input cannot be ignored forever, and
\* stopping the thread cannot take more than a period, besides the action.
Tick(n) ==
  /\ n > now
  /\ work.k \in {"idle", "acting"}
  /\ (work.k = "idle" /\ thread = "alive" /\ input # None) => n <= must_act
  /\ (work.k = "idle" /\ thread = "stopping") => n <= must_act
  /\ \A c \in Client :
       \/ op[c].k \in {"none", "stopping"}
       \/ op[c].k \in {"start", "stop", "restart"} /\ lock # None
  /\ life = "dying" => thread # "alive"
  /\ now' = n
  /\ UNCHANGED <<stop_at, has_output, op, thread, lock, input, output, work, may_act,
                 must_act, life>>

-----------------------------------------------------------------------------
(* Properties. *)

\* When no thread exists nothing runs.
NoThreadNoWork == thread = "none" => work = Idle

\* After a stop or the destruction returns, no action is running, unless another
\* client started the thread again.
DeadMeansIdle == life = "dead" => work = Idle /\ thread = "none"

\* Inputs and outputs appear and disappear only as a result of the operations of
\* the clients, or because an action starts or completes.
InputsKept ==
  [][(input # None /\ input' # input) =>
       \/ \E c \in Client : op[c].k = "put" /\ input' = op[c].v
       \/ work' = [k |-> "taken", v |-> input]]_vars
OutputsKept ==
  [][(output # None /\ output' # output) =>
       \/ \E c \in Client : op'[c] = [k |-> "got", v |-> output]
       \/ work.k = "successful" /\ output' = Output(work.v)]_vars

\* A stopped thread produces no output.
NoOutputFromFailure == [][work.k = "failed" => output' \in {output, None}]_vars

\* Actions are not too close to one another while the thread is not restarted.
=============================================================================
