---------------------------- MODULE DisjointSets ----------------------------
(***************************************************************************)
(* base/disjoint_sets: the partition of a set of elements.  Since the      *)
(* elements are shared by the entire program, making singletons of all of  *)
(* them starts afresh.                                                     *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

VARIABLES
  block,  \* For each element, the subset that contains it; {} if none yet.
  edges   \* The unions performed since the elements were made singletons.

vars == <<block, edges>>

Elements == DOMAIN block

Singleton(x) ==
  /\ block' = [block EXCEPT ![x] = {x}]
  /\ edges' = {e \in edges : x \notin e}

Unite(x, y) ==
  /\ LET u == block[x] \cup block[y]
     IN block' = [z \in Elements |-> IF z \in u THEN u ELSE block[z]]
  /\ edges' = edges \cup {{x, y}}

-----------------------------------------------------------------------------
\* The reflexive and transitive closure of the unions, independently computed.
RECURSIVE Reach(_)
Reach(s) == LET t == s \cup UNION {e \in edges : e \cap s # {}}
            IN IF t = s THEN s ELSE Reach(t)

BlocksAreComponents ==
  \A x \in Elements : block[x] # {} => block[x] = Reach({x})
IsPartition ==
  \A x, y \in Elements :
    /\ block[x] # {} => x \in block[x]
    /\ block[x] = block[y] \/ block[x] \cap block[y] = {}
OnlyGrows ==
  [][\A x \in Elements : block[x] \subseteq block'[x] \/ block'[x] = {x}]_vars
=============================================================================
