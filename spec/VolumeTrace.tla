----------------------------- MODULE VolumeTrace -----------------------------
EXTENDS TraceBase
CONSTANTS Clients, Cmds, None
VARIABLES cur, ever, open, done, sub, last
V == INSTANCE Volume

Init == \E i \in 1 .. N : TraceInit(i) /\ V!VolumeInit(Traces[i].init)

Next ==
  /\ Going
  /\ \/ Is("begin") /\ V!Begin(Ev.k2, Ev.v)
     \/ Silent /\ \E k \in Cmds : V!Apply(k)
     \/ Is("end") /\ IF Ev.ok THEN V!Accept(Ev.k2) ELSE V!Reject(Ev.k2)
     \/ Is("sub") /\ V!Subscribe(Ev.c)
     \/ Is("leave") /\ V!Leave(Ev.c)
     \/ Is("told") /\ V!Told(Ev.c, Ev.v)
     \/ Is("late") /\ UNCHANGED <<cur, ever, open, done, sub, last>> \* told after leaving
     \/ Is("calm") /\ V!Settled /\ UNCHANGED <<cur, ever, open, done, sub, last>>
==============================================================================
