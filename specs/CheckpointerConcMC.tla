------------------------- MODULE CheckpointerConcMC -------------------------
EXTENDS CheckpointerConc
CONSTANTS Ts
Next == \E h \in Thread :
  \/ \E t \in Ts : t \notin Times /\ (\A g \in Thread : op[g].k \in {"write", "need"} => op[g].t # t) /\ CallWrite(h, t, 10 * t)
  \/ \E t \in Ts : t \notin Times /\ (\A g \in Thread : op[g].k \in {"write", "need"} => op[g].t # t) /\ CallNeed(h, t, 2, 10 * t)
  \/ \E t \in Ts : CallRead(h, t)
  \/ CallList(h)
  \/ Commit(h)
  \/ \E r \in BOOLEAN : ReturnWrite(h, r)
  \/ op[h].k = "have" /\ ReturnRead(h, op[h].ps)
  \/ op[h].k = "listed" /\ ReturnList(h, op[h].ts)
Spec == CInit /\ [][Next]_cvars
ReadsRight == \A h \in Thread :
  op[h].k = "have" /\ op[h].ps # <<>> => op[h].ps[1] \in {10 * t : t \in Times}
=============================================================================
