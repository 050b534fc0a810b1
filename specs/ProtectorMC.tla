----------------------------- MODULE ProtectorMC -----------------------------
EXTENDS Protector
CONSTANTS Ts, Ids, Max
\* The callback with identifier i is for time TimeOf(i).
TimeOf(i) == i % 3
Used == ran \cup {c.id : c \in pending \cup Released}
        \cup UNION {{stack[h][i].id : i \in {j \in DOMAIN stack[h] : stack[h][j].k = "run"}} : h \in Thread}
Total(p) == IF DOMAIN p = {} THEN 0 ELSE
  LET Sum[S \in SUBSET DOMAIN p] == IF S = {} THEN 0 ELSE
        LET s == CHOOSE s \in S : TRUE IN p[s] + Sum[S \ {s}] IN Sum[DOMAIN p]
Protecting == Cardinality({h \in Thread : \E i \in DOMAIN stack[h] : stack[h][i].k = "protect"})
Unprotecting(t) == Cardinality({h \in Thread : \E i \in DOMAIN stack[h] : stack[h][i] = [k |-> "unprotect", t |-> t]})
Next == \E h \in Thread :
  \/ Len(stack[h]) < 3 /\ Total(prot) + Protecting < Max /\ \E t \in Ts : CallProtect(h, t)
  \/ Len(stack[h]) < 3 /\ \E t \in Starts : prot[t] > Unprotecting(t) /\ CallUnprotect(h, t)
  \/ Len(stack[h]) < 3 /\ \E i \in Ids \ Used : CallRun(h, i, TimeOf(i))
  \/ Commit(h)
  \/ \E i \in Ids : BeginCallback(h, i) \/ EndCallback(h, i)
  \/ \E r \in BOOLEAN, op \in {"protect", "unprotect", "run"} : Return(h, op, r)
Spec == Init /\ [][Next]_vars
=============================================================================
