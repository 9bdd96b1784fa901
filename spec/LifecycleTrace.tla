--------------------------- MODULE LifecycleTrace ---------------------------
(* Commands recorded from their start to their end, against Lifecycle.        *)
EXTENDS TraceBase

VARIABLES conf, due
C == INSTANCE Lifecycle

Init == C!Init /\ \E i \in 1 .. N : TraceInit(i)

Next ==
  /\ Going
  /\ \/ Is("start") /\ C!Start(Ev.conf)
     \/ Is("interrupt") /\ C!Interrupt
     \/ Is("cut") /\ C!Cut
     \/ Is("state") /\ C!State(Ev.ended, Ev.peer, Ev.terminal)
     \/ Is("client") /\ C!Client(Ev.at, Ev.served)
     \/ Is("operator") /\ C!Operator(Ev.at, Ev.key, Ev.served)
     \/ Is("ping") /\ C!Ping(Ev.n, Ev.pongs)
=============================================================================
