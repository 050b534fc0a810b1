-------------------------- MODULE CheckpointerConc --------------------------
(***************************************************************************)
(* A checkpointer used by several threads (it is documented as             *)
(* thread-safe): every operation takes effect atomically between its call  *)
(* and its return; the state of a checkpoint is produced by the writer,    *)
(* out of the lock, after the checkpoint has become visible and before the *)
(* return.                                                                 *)
(***************************************************************************)
EXTENDS Checkpointer

CONSTANT Thread

VARIABLE op \* For each thread, its current operation.

cvars == <<cps, written, op>>

Idle == [k |-> "idle"]

CInit == Init /\ op = [h \in Thread |-> Idle]

\* The calls.  `p` is the state that the writer will produce.
CallWrite(h, t, p) ==
  /\ op[h] = Idle
  /\ op' = [op EXCEPT ![h] = [k |-> "write", t |-> t, p |-> p, max |-> -1]]
  /\ UNCHANGED vars
CallNeed(h, t, max, p) ==
  /\ op[h] = Idle
  /\ op' = [op EXCEPT ![h] = [k |-> "need", t |-> t, p |-> p, max |-> max]]
  /\ UNCHANGED vars
CallRead(h, t) ==
  /\ op[h] = Idle
  /\ op' = [op EXCEPT ![h] = [k |-> "read", t |-> t]]
  /\ UNCHANGED vars
CallList(h) ==
  /\ op[h] = Idle
  /\ op' = [op EXCEPT ![h] = [k |-> "list"]]
  /\ UNCHANGED vars

\* The effects.
Insert(t, p) ==
  /\ cps' = [u \in Times \cup {t} |-> IF u = t THEN p ELSE cps[u]]
  /\ UNCHANGED written

Commit(h) ==
  \/ /\ op[h].k = "write"
     /\ op[h].t \notin Times
     /\ Insert(op[h].t, op[h].p)
     /\ op' = [op EXCEPT ![h] = [k |-> "wrote", r |-> TRUE]]
  \/ /\ op[h].k = "need"
     /\ IF Needed(op[h].t, op[h].max)
        THEN op[h].t \notin Times /\ Insert(op[h].t, op[h].p)
        ELSE UNCHANGED vars
     /\ op' = [op EXCEPT ![h] = [k |-> "wrote",
                                 r |-> Needed(op[h].t, op[h].max)]]
  \/ /\ op[h].k = "read"
     /\ op' = [op EXCEPT ![h] =
          [k |-> "have",
           ps |-> IF op[h].t \in Times THEN <<cps[op[h].t]>> ELSE <<>>]]
     /\ UNCHANGED vars
  \/ /\ op[h].k = "list"
     /\ op' = [op EXCEPT ![h] = [k |-> "listed", ts |-> Times]]
     /\ UNCHANGED vars

\* The returns.
ReturnWrite(h, r) ==
  /\ op[h].k = "wrote"
  /\ op[h].r = r
  /\ op' = [op EXCEPT ![h] = Idle]
  /\ UNCHANGED vars
ReturnRead(h, ps) ==
  /\ op[h].k = "have"
  /\ op[h].ps = ps
  /\ op' = [op EXCEPT ![h] = Idle]
  /\ UNCHANGED vars
ReturnList(h, ts) ==
  /\ op[h].k = "listed"
  /\ op[h].ts = ts
  /\ op' = [op EXCEPT ![h] = Idle]
  /\ UNCHANGED vars

\* What a reader obtains is the state of the checkpoint that it asked for.
StatesAreFinal == [][\A t \in Times : t \in DOMAIN cps' /\ cps'[t] = cps[t]]_cvars
=============================================================================
