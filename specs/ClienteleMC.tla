----------------------------- MODULE ClienteleMC -----------------------------
EXTENDS Clientele
CONSTANTS Xs, Max
Leaving(x) == Cardinality({h \in Thread : op[h] = [k |-> "leave", x |-> x]})
Next == \E h \in Thread :
  \/ \E x \in Xs : (x \in DOMAIN clients => clients[x] < Max) /\ Call(h, [k |-> "join", x |-> x])
  \/ \E x \in DOMAIN clients : clients[x] > Leaving(x) /\ Call(h, [k |-> "leave", x |-> x])
  \/ Call(h, [k |-> "first"])
  \/ Commit(h)
  \/ \E k \in {"joined", "left", "firsted"}, r \in Xs \cup {Default} : Return(h, k, r)
Spec == Init /\ [][Next]_vars
=============================================================================
