-------------------------- MODULE DisjointSetsTrace --------------------------
(* Validates executions of the real code against DisjointSets. *)
EXTENDS DisjointSets, TraceCommon

TraceInit ==
  /\ CommonInit
  /\ block = [x \in 0..Cfg.n - 1 |-> {}]
  /\ edges = {}

\* The properties of a subset are those of its elements, each exactly once.
Ids(s, b) ==
  /\ Len(s) = Cardinality(b)
  /\ {s[i] : i \in 1..Len(s)} = b

TraceNext ==
  \/ IsEvent("single") /\ Singleton(Event.x)
  \/ /\ IsEvent("unite")
     /\ Unite(Event.x, Event.y)
     /\ Ids(Event.ids, block'[Event.x])
  \/ /\ IsEvent("find")
     /\ Ids(Event.ids, block[Event.x])
     /\ UNCHANGED vars
  \/ /\ IsEvent("same")
     /\ Event.eq = (block[Event.x] = block[Event.y])
     /\ Event.ne = ~Event.eq
     /\ UNCHANGED vars
  \/ IsEvent("end") /\ UNCHANGED vars

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tr, l>>
=============================================================================
