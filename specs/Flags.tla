-------------------------------- MODULE Flags --------------------------------
(* base/flags: a set of pairs of names and values. *)
EXTENDS Integers, Sequences

VARIABLES flags,  \* The pairs that are present.
          log     \* The operations since the last clearing.

vars == <<flags, log>>

Init == flags = {} /\ log = <<>>

Set(n, v) == flags' = flags \cup {<<n, v>>} /\ log' = Append(log, <<n, v>>)
Clear == flags' = {} /\ log' = <<>>

Values(n) == {p[2] : p \in {q \in flags : q[1] = n}}
IsPresent(n) == Values(n) # {}
IsPresentWith(n, v) == v \in Values(n)

-----------------------------------------------------------------------------
\* A flag is present if it was set since the last clearing.
PresentIffSet ==
  \A p \in flags : \E i \in 1..Len(log) : log[i] = p
SetMeansPresent ==
  \A i \in 1..Len(log) :
    IsPresent(log[i][1]) /\ IsPresentWith(log[i][1], log[i][2])
\* Setting a flag doesn't affect the others.
Independent ==
  [][\A i \in 1..Len(log) : (log' # <<>> => log[i] \in flags')]_vars
=============================================================================
