-------------------------- MODULE EphemerisReanimation --------------------------
(***************************************************************************)
(* The protocol used to reconstruct the past of an ephemeris.  Clients     *)
(* request, or await, the reconstruction of the past down to some time.  A *)
(* request computes the time to which the reanimator must go, which must   *)
(* not leave behind a client that is waiting; if that is much later than   *)
(* the previous request the reanimator is interrupted; then the time is    *)
(* given to the reanimator, which remembers only the last time that it was *)
(* given.  The reanimator reconstructs one checkpoint at a time, going     *)
(* backwards.                                                              *)
(*                                                                         *)
(* If Serialized is TRUE a request is processed entirely before the next   *)
(* one, as it should; if it is FALSE requests may be interleaved.          *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS Times,      \* The times that may be requested; all checkpoints.
          Clients,
          Threshold,  \* The increase that causes the reanimator to restart.
          Serialized,
          MaxRequests

None == -1
Max(s) == CHOOSE x \in s : \A y \in s : x >= y
Min(s) == CHOOSE x \in s : \A y \in s : x <= y

VARIABLES
  oldest,   \* The time down to which the past is known.
  input,    \* The last time given to the reanimator and not yet taken, or None.
  working,  \* The time down to which the reanimator is working, or None.
  last,     \* The time computed by the last request, or None.
  waiting,  \* For each client, the time that it awaits, or None.
  pc,       \* For each client, its position.
  want,     \* For each client, the time that it requested.
  allow,    \* For each client, the time that it computed.
  mutex,    \* The client processing a request, or None.
  count     \* The number of requests made by each client.
rvars == <<oldest, input, working, last, waiting, pc, want, allow, mutex, count>>

RInit ==
  /\ oldest = Max(Times)
  /\ input = None /\ working = None /\ last = None /\ mutex = None
  /\ waiting = [c \in Clients |-> None]
  /\ pc = [c \in Clients |-> "idle"]
  /\ want = [c \in Clients |-> None]
  /\ allow = [c \in Clients |-> None]
  /\ count = [c \in Clients |-> 0]

Waited == {waiting[c] : c \in Clients} \ {None}

Call(c, t, await) ==
  /\ pc[c] = "idle" /\ count[c] < MaxRequests
  /\ count' = [count EXCEPT ![c] = @ + 1]
  /\ waiting' = [waiting EXCEPT ![c] = IF await THEN t ELSE None]
  /\ want' = [want EXCEPT ![c] = t]
  /\ pc' = [pc EXCEPT ![c] = "lock"]
  /\ UNCHANGED <<oldest, input, working, last, allow, mutex>>

Lock(c) ==
  /\ pc[c] = "lock"
  /\ Serialized => mutex = None
  /\ mutex' = IF Serialized THEN c ELSE None
  /\ pc' = [pc EXCEPT ![c] = "compute"]
  /\ UNCHANGED <<oldest, input, working, last, waiting, want, allow, count>>

Compute(c) ==
  /\ pc[c] = "compute"
  /\ LET a == Min(Waited \cup {want[c]})
     IN /\ allow' = [allow EXCEPT ![c] = a]
        /\ pc' = [pc EXCEPT
             ![c] = IF last # None /\ last + Threshold < a
                    THEN "restart" ELSE "put"]
        /\ last' = a
  /\ UNCHANGED <<oldest, input, working, waiting, want, mutex, count>>

Restart(c) ==
  /\ pc[c] = "restart"
  /\ working' = None
  /\ pc' = [pc EXCEPT ![c] = "put"]
  /\ UNCHANGED <<oldest, input, last, waiting, want, allow, mutex, count>>

Put(c) ==
  /\ pc[c] = "put"
  /\ input' = allow[c]
  /\ mutex' = None
  /\ pc' = [pc EXCEPT ![c] = IF waiting[c] = None THEN "idle" ELSE "wait"]
  /\ UNCHANGED <<oldest, working, last, waiting, want, allow, count>>

Return(c) ==
  /\ pc[c] = "wait"
  /\ oldest <= waiting[c]
  /\ waiting' = [waiting EXCEPT ![c] = None]
  /\ pc' = [pc EXCEPT ![c] = "idle"]
  /\ UNCHANGED <<oldest, input, working, last, want, allow, mutex, count>>

Take ==
  /\ input # None /\ working = None
  /\ working' = input /\ input' = None
  /\ UNCHANGED <<oldest, last, waiting, pc, want, allow, mutex, count>>

Reanimate ==
  /\ working # None
  /\ IF oldest > working
     THEN /\ oldest' = Max({t \in Times : t < oldest})
          /\ UNCHANGED working
     ELSE /\ working' = None
          /\ UNCHANGED oldest
  /\ UNCHANGED <<input, last, waiting, pc, want, allow, mutex, count>>

Next ==
  \/ \E c \in Clients :
       \/ \E t \in Times, await \in BOOLEAN : Call(c, t, await)
       \/ Lock(c) \/ Compute(c) \/ Restart(c) \/ Put(c) \/ Return(c)
  \/ Take
  \/ Reanimate

Fairness ==
  /\ \A c \in Clients :
       /\ SF_rvars(Lock(c))
       /\ WF_rvars(Compute(c) \/ Restart(c) \/ Put(c) \/ Return(c))
  /\ WF_rvars(Take)
  /\ WF_rvars(Reanimate)

RSpec == RInit /\ [][Next]_rvars /\ Fairness

\* The past is reconstructed no further than was asked.
NotTooFar ==
  oldest < Max(Times) =>
    \E c \in Clients : want[c] # None /\ oldest >= Min(Times)
\* No client that waits is left behind: something will serve it.
Served ==
  \A c \in Clients :
    pc[c] = "wait" =>
      \/ oldest <= waiting[c]
      \/ input # None /\ input <= waiting[c]
      \/ working # None /\ working <= waiting[c] /\ input = None
      \/ working # None /\ working <= waiting[c]
      \/ \E d \in Clients : pc[d] \in {"restart", "put"} /\ allow[d] <= waiting[c]
Monotonic == [][oldest' <= oldest]_rvars
\* A client that waits is eventually served.
Progress == \A c \in Clients : pc[c] = "wait" ~> pc[c] = "idle"
=============================================================================
