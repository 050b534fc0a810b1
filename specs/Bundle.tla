------------------------------- MODULE Bundle -------------------------------
(***************************************************************************)
(* The observable behaviour of base/bundle: tasks are added, run on their  *)
(* own threads, and are joined, possibly with a time limit.                *)
(*                                                                         *)
(* Status codes are those of absl::StatusCode: 0 is OK, 4 is               *)
(* DEADLINE_EXCEEDED.                                                      *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS Task,        \* The identities of the tasks.
          Code         \* The status codes with which tasks may finish.

OK == 0
DEADLINE == 4
Never == -1

VARIABLES
  task,     \* The progress of each task.
  outcome,  \* The status of each task that finished.
  status,   \* The first error committed by a task.
  join,     \* "no", "waiting", "joined"
  limit,    \* The instant at which the join expires, or Never.
  expired,  \* Whether the time limit was exceeded with an unfinished task.
  result,   \* The result of the join.
  now       \* The clock.

vars == <<task, outcome, status, join, limit, expired, result, now>>

TaskState == {"new", "added", "running", "finished", "done"}

TypeOK ==
  /\ task \in [Task -> TaskState]
  /\ outcome \in [Task -> Code \cup {OK}]
  /\ status \in Code \cup {OK}
  /\ join \in {"no", "waiting", "joined"}
  /\ limit \in Int
  /\ expired \in BOOLEAN
  /\ result \in Code \cup {OK, DEADLINE, Never}
  /\ now \in Nat

Init ==
  /\ task = [t \in Task |-> "new"]
  /\ outcome = [t \in Task |-> OK]
  /\ status = OK
  /\ join = "no"
  /\ limit = Never
  /\ expired = FALSE
  /\ result = Never
  /\ now = 0

\* The tasks that were added and whose effects are not all visible.
Unfinished == {t \in Task : task[t] \in {"added", "running", "finished"}}

Add(t) ==
  /\ join = "no"
  /\ task[t] = "new"
  /\ task' = [task EXCEPT ![t] = "added"]
  /\ UNCHANGED <<outcome, status, join, limit, expired, result, now>>

Start(t) ==
  /\ task[t] = "added"
  /\ task' = [task EXCEPT ![t] = "running"]
  /\ UNCHANGED <<outcome, status, join, limit, expired, result, now>>

\* The function of the task returns.
Finish(t, s) ==
  /\ task[t] = "running"
  /\ task' = [task EXCEPT ![t] = "finished"]
  /\ outcome' = [outcome EXCEPT ![t] = s]
  /\ UNCHANGED <<status, join, limit, expired, result, now>>

\* The status of the task is taken into account and the task ceases to count as
\* active.  Internal step.
Commit(t) ==
  /\ task[t] = "finished"
  /\ task' = [task EXCEPT ![t] = "done"]
  /\ status' = IF status = OK THEN outcome[t] ELSE status
  /\ UNCHANGED <<outcome, join, limit, expired, result, now>>

\* A plain join has duration Never.
Join(d) ==
  /\ join = "no"
  /\ join' = "waiting"
  /\ limit' = IF d = Never THEN Never ELSE now + d
  /\ UNCHANGED <<task, outcome, status, expired, result, now>>

\* The time limit is exceeded while some task is not done.  Internal step.
Expire ==
  /\ join = "waiting"
  /\ limit # Never
  /\ now >= limit
  /\ ~expired
  /\ Unfinished # {}
  /\ expired' = TRUE
  /\ UNCHANGED <<task, outcome, status, join, limit, result, now>>

\* The clock cannot move past an expiration without the join noticing it.
Tick(n) ==
  /\ n > now
  /\ \/ join # "waiting"
     \/ limit = Never
     \/ n <= limit
     \/ expired
     \/ Unfinished = {}
  /\ now' = n
  /\ UNCHANGED <<task, outcome, status, join, limit, expired, result>>

Joined(s) ==
  /\ join = "waiting"
  /\ Unfinished = {}
  /\ s = IF expired THEN DEADLINE ELSE status
  /\ join' = "joined"
  /\ result' = s
  /\ UNCHANGED <<task, outcome, status, limit, expired, now>>

-----------------------------------------------------------------------------
(* Properties. *)

\* The join returns only after all the tasks have finished.
JoinedAfterAll ==
  join = "joined" => \A t \in Task : task[t] \in {"new", "done"}

\* The join returns OK only if all the tasks did.
OKIffAllOK ==
  (join = "joined" /\ ~expired) =>
    ((result = OK) <=> (\A t \in Task : outcome[t] = OK))

\* An error that is not due to the time limit comes from a task.
ErrorFromTask ==
  (join = "joined" /\ ~expired /\ result # OK) =>
    \E t \in Task : outcome[t] = result

DeadlineIffExpired ==
  (join = "joined" /\ DEADLINE \notin Code) =>
    ((result = DEADLINE) <=> expired)

\* The status never changes once it is an error.
FirstErrorWins == [][status # OK => status' = status]_vars

\* A task runs at most once: its progress never goes back.
Rank(s) == CASE s = "new" -> 0 [] s = "added" -> 1 [] s = "running" -> 2
             [] s = "finished" -> 3 [] s = "done" -> 4
RunsOnce == [][\A t \in Task : Rank(task'[t]) - Rank(task[t]) \in {0, 1}]_vars

=============================================================================
