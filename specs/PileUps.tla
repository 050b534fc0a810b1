------------------------------- MODULE PileUps --------------------------------
(* The piles up of the game (ksp_plugin/part_subsets.hpp, pile_up.hpp,       *)
(* part.hpp).  In every frame, the parts of the game that touch each other,  *)
(* directly or not, belong to the same pile up, and a pile up survives from  *)
(* one frame to the next iff its parts remain exactly the same.  The parts   *)
(* that are connected to the ground are not simulated: they are destroyed.   *)
(* A pile up is destroyed with the last of the parts that it contains.       *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  pile,     \* A function from the parts to the identifiers of the piles up.
  members,  \* A function from the identifiers of the piles up to the parts with
            \* which they were created.
  last      \* The last identifier used for a pile up.
vars == <<pile, members, last>>

Init ==
  /\ pile = <<>>
  /\ members = <<>>
  /\ last = 0

\* The parts that are connected to those of S by edges, n times.
RECURSIVE Reach(_, _, _)
Reach(S, edges, n) ==
  IF n = 0 THEN S
  ELSE Reach(S \union {e[1] : e \in {f \in edges : f[2] \in S}}
               \union {e[2] : e \in {f \in edges : f[1] \in S}},
             edges, n - 1)

Component(p, parts, edges) == Reach({p}, edges, Cardinality(parts))
Components(parts, edges) == {Component(p, parts, edges) : p \in parts}

Grounded(parts, edges, ground) ==
  UNION {c \in Components(parts, edges) : c \intersect ground # {}}

\* The parts of a component retain their pile up iff they were all its parts;
\* otherwise, they get a fresh one.  `new` is the pile up of the parts after a
\* frame.
FrameOk(parts, edges, ground, new) ==
  LET dead == Grounded(parts, edges, ground)
      left == {c \in Components(parts, edges) : c \intersect dead = {}}
  IN  /\ DOMAIN new = parts \ dead
      /\ \A c \in left :
           /\ \A p, q \in c : new[p] = new[q]
           /\ IF \E i \in DOMAIN members : members[i] = c
              THEN \A p \in c : new[p] = pile[p]
              ELSE \A p \in c : new[p] > last
      /\ \A c, d \in left :
           c # d => \A p \in c, q \in d : new[p] # new[q]

Max(S) == CHOOSE x \in S : \A y \in S : y <= x

Frame(new) ==
  LET ids == {new[p] : p \in DOMAIN new}
  IN  /\ pile' = new
      /\ members' = [i \in ids |-> {p \in DOMAIN new : new[p] = i}]
      /\ last' = Max(ids \union {last})

\* Every part belongs to exactly one pile up, which contains it and nothing
\* else.
Partition ==
  /\ \A p \in DOMAIN pile :
       /\ pile[p] \in DOMAIN members
       /\ p \in members[pile[p]]
  /\ \A i \in DOMAIN members :
       /\ members[i] # {}
       /\ \A p \in members[i] : p \in DOMAIN pile /\ pile[p] = i
=============================================================================
