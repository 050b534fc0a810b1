-------------------------- MODULE CheckpointerTrace --------------------------
(* Validates executions of the real code against Checkpointer. *)
EXTENDS Checkpointer, TraceCommon

TraceInit == Init /\ CommonInit

Increasing(s) == \A i \in 1..Len(s) - 1 : s[i] < s[i + 1]
Elements(s) == {s[i] : i \in 1..Len(s)}
IsList(s, S) == Increasing(s) /\ Elements(s) = S

\* What the reader of the driver returns.
ReaderStatus(p) == IF p % 4 = 0 THEN 9 ELSE 0
OtherReaderStatus(p) == IF p % 2 = 1 THEN 3 ELSE 0
NotFound == 5

Query ==
  \/ IsEvent("size") /\ Event.r = Cardinality(Times)
  \/ IsEvent("oldest") /\ Event.r = Oldest
  \/ IsEvent("newest") /\ Event.r = Newest
  \/ IsEvent("atafter") /\ Event.r = Min(After(Event.t))
  \/ IsEvent("atbefore") /\ Event.r = Max(Before(Event.t))
  \/ IsEvent("all") /\ IsList(Event.ts, Times)
  \/ IsEvent("allbefore") /\ IsList(Event.ts, Before(Event.t))
  \/ IsEvent("between") /\ IsList(Event.ts, Between(Event.t1, Event.t2))

Read ==
  /\ IsEvent("read")
  /\ IF Found(Event.k, Event.t)
     THEN LET p == cps[Target(Event.k, Event.t)] IN
          /\ Event.calls = <<p>>
          /\ Event.s = IF Event.other THEN OtherReaderStatus(p)
                       ELSE ReaderStatus(p)
     ELSE Event.calls = <<>> /\ Event.s = NotFound

\* The message has the checkpoints in the order of time.
Message(m) ==
  /\ Len(m) = Cardinality(Times)
  /\ Increasing([i \in 1..Len(m) |-> m[i][1]])
  /\ \A i \in 1..Len(m) : m[i][1] \in Times /\ cps[m[i][1]] = m[i][2]

TraceNext ==
  \/ IsEvent("write") /\ Write(Event.t) /\ Event.p = written'
  \/ /\ IsEvent("need")
     /\ WriteIfNeeded(Event.t, Event.max, Event.r)
     /\ Event.p = IF Event.r THEN written' ELSE 0
  \* The next event tells that the program died.
  \/ IsEvent("fatalwrite") /\ WriteDies(Event.t) /\ UNCHANGED vars
  \/ IsEvent("fatalneed") /\ NeededDies(Event.t, Event.max) /\ UNCHANGED vars
  \/ /\ IsEvent("died")
     /\ l > 1
     /\ Trace[l - 1].e \in {"fatalwrite", "fatalneed"}
     /\ UNCHANGED vars
  \/ Query /\ UNCHANGED vars
  \/ Read /\ UNCHANGED vars
  \/ /\ IsEvent("roundtrip")
     /\ Message(Event.m)
     /\ RoundTrip(LAMBDA p : IF Event.rw THEN p + 100 ELSE p)
  \/ IsEvent("end") /\ UNCHANGED vars

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tr, l>>
=============================================================================
