------------------------------ MODULE MapsTrace ------------------------------
(* Validates executions of the real code against Maps. *)
EXTENDS Maps, TraceCommon

TraceInit == CommonInit /\ words = [i \in {} |-> <<>>]

W == words[Event.id]
Observe(e) == IsEvent(e) /\ UNCHANGED words
Pairs(f(_)) == \A i \in 1..Len(Event.io) : f(Event.io[i][1]) = Event.io[i][2]

\* The passive rotation that defines the frame of arrival is the inverse of the
\* active rotation that yields its axes.
Rotation(e) == IF Event.frame = "to" THEN Invert(e) ELSE e
ByBasis(b) == CHOOSE e \in Oh : \A i \in Axes : Column(e, i) = b[i]

TraceNext ==
  \/ IsEvent("perm") /\ New(Event.id, Linear(PermutationNamed(Event.name), 0))
  \/ IsEvent("signature") /\ New(Event.id, Linear(SignatureOf(Event.s), 0))
  \/ IsEvent("identity") /\ Define(Event.id, <<>>)
  \/ IsEvent("inversion") /\ New(Event.id, Linear(SignatureOf(<<-1, -1, -1>>), 0))
  \/ IsEvent("homothecy") /\ New(Event.id, Linear(One, Event.k))
  \/ IsEvent("turn") /\ New(Event.id, Linear(Rotation(Turn(Event.d, Event.n)), 0))
  \/ /\ IsEvent("angles")
     /\ New(Event.id, Linear(Rotation(
              Compose(AxisTurn(Event.axes[1], Event.n[1]),
                Compose(AxisTurn(Event.axes[2], Event.n[2]),
                        AxisTurn(Event.axes[3], Event.n[3])))), 0))
  \/ IsEvent("basis") /\ New(Event.id, Linear(Rotation(ByBasis(Event.b)), 0))
  \* An affine map from the word of a linear map.
  \/ /\ IsEvent("affine")
     /\ Define(Event.id,
               <<Gen(One, 0, Event.t, Zero, Zero)>> \o words[Event.lin] \o
               <<Gen(One, 0, Times(-1, Event.f), Zero, Zero)>>)
  \* The linear map of an affine map.
  \/ /\ IsEvent("linear")
     /\ Define(Event.id, [i \in 1..Len(words[Event.a]) |->
                           [words[Event.a][i] EXCEPT !.b = Zero, !.w = Zero, !.u = Zero]])
  \* A motion from the word of a rigid transformation.  The angular velocity and
  \* the velocity of the origin are those of the frame of arrival.
  \/ /\ IsEvent("motion")
     /\ LET a == words[Event.a]
            e == CHOOSE e \in Oh : \A v \in Basis : Vec(a, v) = Act(e, v)
            b == Pos(a, Zero) IN
        Define(Event.id, <<Gen(e, 0, b, Event.w, Event.u)>>)
  \* Same, but they are those of the frame of departure.
  \/ /\ IsEvent("motion2")
     /\ LET a == Reversed(words[Event.a])
            e == CHOOSE e \in Oh : \A v \in Basis : Vec(a, v) = Act(e, v)
            b == Pos(a, Zero) IN
        Define(Event.id, Reversed(<<Gen(e, 0, b, Event.w, Event.u)>>))
  \/ IsEvent("compose") /\ Composed(Event.id, Event.l, Event.r)
  \/ IsEvent("inverse") /\ Inverted(Event.id, Event.a)
  \/ IsEvent("copy") /\ Copied(Event.id, Event.a)
  \* Observations.
  \/ Observe("vec") /\ Pairs(LAMBDA v : Vec(W, v))
  \/ Observe("biv") /\ Pairs(LAMBDA v : Biv(W, v))
  \/ Observe("tri") /\ Pairs(LAMBDA a : Tri(W, a))
  \/ Observe("pos") /\ Pairs(LAMBDA q : Pos(W, q))
  \/ Observe("dof") /\ Pairs(LAMBDA d : LET r == Dof(W, [q |-> d[1], v |-> d[2]])
                                        IN <<r.q, r.v>>)
  \/ Observe("form") /\ Pairs(LAMBDA f : Form(W, f))
  \/ Observe("formb") /\ Pairs(LAMBDA f : FormB(W, f))
  \/ Observe("det") /\ Event.r = Determinant(W)
  \/ Observe("scale") /\ Event.r = Exponent(W)
  \/ /\ Observe("name")
     /\ \A v \in Basis : Vec(W, v) = Act(PermutationNamed(Event.name), v)
  \* The angle, in twelfths of a turn, and the signs of the axis; both may change
  \* sign.
  \/ /\ Observe("angle")
     /\ \E e \in Oh : /\ \A v \in Basis : Vec(W, v) = Act(e, v)
                      /\ Trace3(e) = CASE Event.n % 12 = 0 -> 3
                                       [] Event.n % 12 \in {3, 9} -> 1
                                       [] Event.n % 12 \in {4, 8} -> 0
                                       [] Event.n % 12 = 6 -> -1
                                       [] OTHER -> 99
  \/ /\ Observe("axis")
     /\ \E e \in Oh : /\ \A v \in Basis : Vec(W, v) = Act(e, v)
                      /\ Event.d # Zero
                      /\ IsTurn(e, Event.d, Event.n)
  \* The motion of the frame of arrival, seen from that of departure.
  \/ /\ Observe("arrival")
     /\ LET q == Pos(Reversed(W), Zero) IN
        \A x \in Basis \cup {Zero} :
          Dof(W, [q |-> Plus(q, x), v |-> Plus(Event.u, Cross(Event.w, x))]).v = Zero
  \/ /\ Observe("departure")
     /\ \A x \in Basis \cup {Zero} :
          LET d == Dof(W, [q |-> x, v |-> Zero]) IN
          d.v = Plus(Event.u, Cross(Event.w, Minus(d.q, Pos(W, Zero))))
  \* Signs.
  \/ Observe("sign") /\ Event.r = IF Event.x > 0 THEN 1 ELSE -1
  \/ Observe("product") /\ Event.r = Event.x * Event.y
  \/ Observe("equal") /\ Event.r = (Event.x = Event.y)
  \/ Observe("end")

TraceSpec == TraceInit /\ [][TraceNext]_<<words, tr, l>>
=============================================================================
