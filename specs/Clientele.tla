------------------------------ MODULE Clientele ------------------------------
(***************************************************************************)
(* A clientele (physics/clientele.hpp): a multiset of keys used by several *)
(* threads.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Thread, Default

VARIABLES
  clients, \* The bag of the keys of the clients.
  op       \* For each thread, the operation in progress.

vars == <<clients, op>>

Idle == [k |-> "idle"]
Init == clients = [x \in {} |-> 0] /\ op = [h \in Thread |-> Idle]

First == IF DOMAIN clients = {} THEN Default
         ELSE CHOOSE x \in DOMAIN clients : \A y \in DOMAIN clients : x <= y
Added(p, t) == [s \in DOMAIN p \cup {t} |->
                 IF s = t THEN (IF t \in DOMAIN p THEN p[t] ELSE 0) + 1 ELSE p[s]]
Removed(p, t) == IF p[t] > 1 THEN [p EXCEPT ![t] = @ - 1]
                 ELSE [s \in DOMAIN p \ {t} |-> p[s]]

Call(h, o) == op[h] = Idle /\ op' = [op EXCEPT ![h] = o] /\ UNCHANGED clients

Commit(h) ==
  \/ /\ op[h].k = "join"
     /\ clients' = Added(clients, op[h].x)
     /\ op' = [op EXCEPT ![h] = [k |-> "joined", r |-> op[h].x]]
  \/ /\ op[h].k = "leave"
     /\ op[h].x \in DOMAIN clients
     /\ clients' = Removed(clients, op[h].x)
     /\ op' = [op EXCEPT ![h] = [k |-> "left", r |-> op[h].x]]
  \/ /\ op[h].k = "first"
     /\ op' = [op EXCEPT ![h] = [k |-> "firsted", r |-> First]]
     /\ UNCHANGED clients

Return(h, k, r) ==
  /\ op[h] = [k |-> k, r |-> r]
  /\ op' = [op EXCEPT ![h] = Idle]
  /\ UNCHANGED clients

Positive == \A x \in DOMAIN clients : clients[x] > 0
FirstIsSmallest ==
  \A h \in Thread : op[h].k = "first" =>
    \/ First = Default /\ DOMAIN clients = {}
    \/ First \in DOMAIN clients /\ \A x \in DOMAIN clients : First <= x
=============================================================================
