---------------------------- MODULE PileUpsTrace -----------------------------
(* Validates frames of a game against PileUps.                               *)
EXTENDS PileUps, TraceCommon

TraceInit ==
  /\ CommonInit
  /\ Init

ToSet(s) == {s[i] : i \in 1..Len(s)}
PileOf(s) ==
  [p \in {s[i][1] : i \in 1..Len(s)} |->
     s[CHOOSE i \in 1..Len(s) : s[i][1] = p][2]]
Edges(s) == {<<s[i][1], s[i][2]>> : i \in 1..Len(s)}

DoFrame ==
  LET alive == ToSet(Event.alive)
      edges == Edges(Event.edges)
      ground == ToSet(Event.ground)
      new == PileOf(Event.piles)
      created == ToSet(Event.created)
  IN  /\ created \intersect DOMAIN pile = {}
      /\ alive = (DOMAIN pile \union created) \ ToSet(Event.destroyed)
      /\ ToSet(Event.grounded) = Grounded(alive, edges, ground)
      /\ FrameOk(alive, edges, ground, new) = TRUE
      /\ Event.listed
      /\ Event.ok
      /\ Event.live = Cardinality({new[p] : p \in DOMAIN new})
      /\ Frame(new)

TraceNext ==
  \/ IsEvent("frame") /\ DoFrame
  \/ /\ IsEvent("advance")
     /\ Event.pile \in DOMAIN members
     /\ ToSet(Event.parts) = members[Event.pile]
     /\ Event.status
     /\ Event.centre
     /\ Event.momentum
     /\ Event.shape
     /\ Event.attitude
     /\ Event.history = 0
     /\ Event.ok
     /\ UNCHANGED vars
  \/ /\ IsEvent("reread")
     /\ Event.same
     /\ PileOf(Event.piles) = pile
     /\ Event.live = Cardinality(DOMAIN members)
     /\ UNCHANGED vars
  \/ /\ IsEvent("equator")
     /\ Event.status
     /\ Event.turns = "right"
     /\ UNCHANGED vars
  \/ IsEvent("over") /\ Event.live = 0 /\ UNCHANGED vars
  \/ IsEvent("end") /\ UNCHANGED vars

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tr, l>>
=============================================================================
