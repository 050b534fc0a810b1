------------------------------ MODULE PushPull ------------------------------
(***************************************************************************)
(* The observable behaviour of base/push_pull_callback: a task running on  *)
(* its own thread calls a callback; each call is handed over to a client   *)
(* which pulls its arguments and pushes its result.                        *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS Value       \* The results and arguments.

None == -1

VARIABLES
  task,      \* The state of the task.
  arguments, \* The arguments of the call that was not pulled yet.
  result,    \* The result that was pushed and not yet returned to the task.
  client,    \* What the client is doing.
  received,  \* The arguments received by the client.
  outcome,   \* The value returned by the task.
  history    \* Number of calls made, handed over, answered, returned.

vars == <<task, arguments, result, client, received, outcome, history>>

TaskState == {"new", "running", "calling", "waiting", "returning", "finished",
              "ended"}

Init ==
  /\ task = "new"
  /\ arguments = None
  /\ result = None
  /\ client = "idle"
  /\ received = None
  /\ outcome = None
  /\ history = [made |-> 0, pulled |-> 0, pushed |-> 0, returned |-> 0]

Begin ==
  /\ task = "new"
  /\ task' = "running"
  /\ UNCHANGED <<arguments, result, client, received, outcome, history>>

(* The task calls the callback. *)
Call(a) ==
  /\ task = "running"
  /\ task' = "calling"
  /\ arguments = None
  /\ arguments' = a
  /\ history' = [history EXCEPT !.made = @ + 1]
  /\ UNCHANGED <<result, client, received, outcome>>

\* Silent: the call becomes visible to the client.
Expose ==
  /\ task = "calling"
  /\ task' = "waiting"
  /\ UNCHANGED <<arguments, result, client, received, outcome, history>>

\* Silent: the result becomes visible to the task.
Answer ==
  /\ task = "waiting"
  /\ result # None
  /\ task' = "returning"
  /\ UNCHANGED <<arguments, result, client, received, outcome, history>>

Return(v) ==
  /\ task = "returning"
  /\ v = result
  /\ result' = None
  /\ task' = "running"
  /\ history' = [history EXCEPT !.returned = @ + 1]
  /\ UNCHANGED <<arguments, client, received, outcome>>

Finish(v) ==
  /\ task = "running"
  /\ task' = "finished"
  /\ outcome' = v
  /\ UNCHANGED <<arguments, result, client, received, history>>

\* Silent: the termination becomes visible to the client.
End ==
  /\ task = "finished"
  /\ task' = "ended"
  /\ UNCHANGED <<arguments, result, client, received, outcome, history>>

(* The client. *)
InvokePull ==
  /\ client = "idle"
  /\ client' = "pulling"
  /\ received' = None
  /\ UNCHANGED <<task, arguments, result, outcome, history>>

\* Silent.
Pull ==
  /\ client = "pulling"
  /\ \/ /\ task = "waiting"
        /\ arguments # None
        /\ received' = arguments
        /\ arguments' = None
        /\ client' = "pulled"
        /\ history' = [history EXCEPT !.pulled = @ + 1]
     \/ /\ task = "ended"
        /\ client' = "stopped"
        /\ UNCHANGED <<received, arguments, history>>
  /\ UNCHANGED <<task, result, outcome>>

ReturnPull(r, a) ==
  /\ \/ r /\ client = "pulled" /\ a = received /\ client' = "serving"
     \/ ~r /\ client = "stopped" /\ client' = "idle"
  /\ UNCHANGED <<task, arguments, result, received, outcome, history>>

InvokePush(v) ==
  /\ client = "serving"
  /\ client' = "pushing"
  /\ result = None
  /\ result' = v
  /\ history' = [history EXCEPT !.pushed = @ + 1]
  /\ UNCHANGED <<task, arguments, received, outcome>>

ReturnPush ==
  /\ client = "pushing"
  /\ client' = "idle"
  /\ UNCHANGED <<task, arguments, result, received, outcome, history>>

Get(v) ==
  /\ client = "idle"
  /\ task = "ended"
  /\ v = outcome
  /\ UNCHANGED vars

\* Time passes only if everybody is waiting.
MayWait ==
  /\ task \notin {"calling", "returning", "finished"}
  /\ ~(task = "waiting" /\ result # None)
  /\ ~(client = "pulling" /\ task = "waiting" /\ arguments # None)
  /\ ~(client = "pulling" /\ task = "ended")
  /\ client \notin {"pulled", "stopped", "pushing"}

-----------------------------------------------------------------------------
(* Properties. *)

\* Every call is handed over once, answered once and returns once, in order.
OneAtATime ==
  /\ history.returned <= history.pushed
  /\ history.pushed <= history.pulled
  /\ history.pulled <= history.made
  /\ history.made <= history.returned + 1

\* The task cannot finish while a call is in progress.
FinishedMeansAnswered ==
  task \in {"finished", "ended"} =>
    history.made = history.returned /\ arguments = None /\ result = None

\* The client is told to stop only once the task has finished.
StopMeansEnded == client = "stopped" => task = "ended"
=============================================================================
