------------------------------ MODULE PileUpsMC -------------------------------
(* The algorithm of ksp_plugin/part_subsets.cpp, which counts the parts that *)
(* a subset lacks to be a pile up, maintains the partition declared by       *)
(* PileUps for all the sequences of frames, unions, and deletions.           *)
EXTENDS PileUps, TLC

CONSTANTS N, Frames, MaxEdges

VARIABLES
  phase, frame,
  alive,     \* The parts that exist.
  cont,      \* Their containing pile up, or 0.
  size,      \* The number of parts with which every pile up was created.
  props,     \* The subsets, as a set of records.
  edges, ground,
  fresh
all == <<vars, phase, frame, alive, cont, size, props, edges, ground, fresh>>

Parts == 1..N

MCInit ==
  /\ Init
  /\ phase = "idle"
  /\ frame = 0
  /\ alive = {}
  /\ cont = [p \in Parts |-> 0]
  /\ size = <<>>
  /\ props = {}
  /\ edges = {}
  /\ ground = {}
  /\ fresh = 0

ToSet(s) == {s[i] : i \in 1..Len(s)}
PropsOf(p) == CHOOSE r \in props : p \in ToSet(r.parts)

\* Parts are created and destroyed; the parts become singletons.  Some are
\* destroyed afterwards.
Start ==
  /\ phase = "idle"
  /\ frame < Frames
  /\ \E before \in SUBSET Parts : \E gone \in SUBSET before :
       /\ before # gone
       /\ Cardinality(gone) <= 1
       /\ alive' = before \ gone
       /\ props' = {[parts |-> <<p>>,
                     missing |-> IF p \in alive /\ cont[p] # 0
                                 THEN size[cont[p]] - 1 ELSE 0,
                     grounded |-> FALSE] : p \in before \ gone}
       /\ cont' = [p \in Parts |->
                     IF p \in alive /\ p \in before \ gone THEN cont[p] ELSE 0]
  /\ frame' = frame + 1
  /\ phase' = "unite"
  /\ edges' = {}
  /\ ground' = {}
  /\ UNCHANGED <<vars, size, fresh>>

PiledUp(r) == cont[r.parts[1]] # 0

\* The second subset becomes a child of the first.
Merge(r, s) ==
  LET same == PiledUp(r) /\ PiledUp(s) /\ cont[r.parts[1]] = cont[s.parts[1]]
  IN  /\ same => Assert(/\ r.missing - Len(s.parts) = s.missing - Len(r.parts)
                        /\ r.missing - Len(s.parts) >= 0, "CHECK in MergeWith")
      /\ cont' = IF same THEN cont
                 ELSE [p \in Parts |->
                         IF p \in ToSet(r.parts) \union ToSet(s.parts)
                         THEN 0 ELSE cont[p]]
      /\ props' = (props \ {r, s}) \union
                    {[parts |-> r.parts \o s.parts,
                      missing |-> IF same THEN r.missing - Len(s.parts)
                                  ELSE r.missing,
                      grounded |-> r.grounded \/ s.grounded]}

Unite ==
  /\ phase = "unite"
  /\ Cardinality(edges) < MaxEdges
  /\ \E p, q \in alive :
       /\ p # q
       /\ <<p, q>> \notin edges
       /\ edges' = edges \union {<<p, q>>}
       /\ IF PropsOf(p) = PropsOf(q)
          THEN UNCHANGED <<cont, props>>
          ELSE Merge(PropsOf(p), PropsOf(q))
  /\ UNCHANGED <<vars, phase, frame, alive, size, ground, fresh>>

Ground ==
  /\ phase = "unite"
  /\ ground = {}
  /\ \E p \in alive :
       /\ ground' = {p}
       /\ props' = (props \ {PropsOf(p)}) \union
                     {[PropsOf(p) EXCEPT !.grounded = TRUE]}
  /\ UNCHANGED <<vars, phase, frame, alive, cont, size, edges, fresh>>

\* The parts that are on the ground are destroyed.
FreeGrounded ==
  /\ phase = "unite"
  /\ phase' = "collect"
  /\ LET dead == UNION {ToSet(r.parts) : r \in {s \in props : s.grounded}}
     IN  /\ Assert(dead = Grounded(alive, edges, ground), "Grounded")
         /\ cont' = [p \in Parts |-> IF p \in dead THEN 0 ELSE cont[p]]
         /\ props' = {r \in props : ~r.grounded}
         /\ alive' = alive \ dead
  /\ UNCHANGED <<vars, frame, size, edges, ground, fresh>>

Collect ==
  /\ phase = "collect"
  /\ \E r \in props :
       /\ props' = props \ {r}
       /\ IF PiledUp(r) /\ r.missing = 0
          THEN UNCHANGED <<cont, size, fresh>>
          ELSE /\ fresh' = fresh + 1
               /\ size' = size @@ (fresh + 1 :> Len(r.parts))
               /\ cont' = [p \in Parts |-> IF p \in ToSet(r.parts)
                                           THEN fresh + 1 ELSE cont[p]]
  /\ UNCHANGED <<vars, phase, frame, alive, edges, ground>>

Done ==
  LET new == [p \in alive |-> cont[p]]
  IN  /\ phase = "collect"
      /\ props = {}
      /\ phase' = "idle"
      /\ Assert(FrameOk(alive, {e \in edges : e[1] \in alive /\ e[2] \in alive},
                        {}, new), "Partition")
      /\ Frame(new)
      /\ UNCHANGED <<frame, alive, cont, size, props, edges, ground, fresh>>

MCNext == Start \/ Unite \/ Ground \/ FreeGrounded \/ Collect \/ Done

MCSpec == MCInit /\ [][MCNext]_all

\* A part is never left without a pile up after a frame.
Complete ==
  phase = "idle" => \A p \in alive : cont[p] # 0 /\ size[cont[p]] =
    Cardinality({q \in alive : cont[q] = cont[p]})
=============================================================================
