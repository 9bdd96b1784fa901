------------------------------ MODULE WireTrace ------------------------------
EXTENDS TraceBase
CONSTANTS Msgs
VARIABLES ph, before, got, damaged, refs
W == INSTANCE Wire

Init == W!Init /\ \E i \in 1 .. N : TraceInit(i)
Same == UNCHANGED <<ph, before, got, damaged, refs>>
Ordered == {i \in 1 .. T.nm : T.ord[i]}

Next ==
  /\ Going
  /\ \/ Is("begin") /\ W!Begin(Ev.m)
     \/ Is("end") /\ W!End(Ev.m)
     \/ Is("damage") /\ W!Damage
     \/ Is("got") /\ Ev.ref = 0 /\ Ev.m \in Msgs /\ W!Hand(Ev.m, Ordered)
     \/ Is("got") /\ Ev.ref \in 1 .. T.refs /\ W!HandRef(Ev.ref)
     \/ Is("calm") /\ W!Complete /\ (Ev.closed = T.err \/ (damaged /\ Ev.closed)) /\ Same
     \/ Is("over") /\ Ev.closed /\ Same
==============================================================================
