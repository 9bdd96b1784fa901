----------------------------- MODULE ChunksTrace -----------------------------
EXTENDS TraceBase
CONSTANTS Clients
VARIABLES T0, S, tol, made, now, na, ni
C == INSTANCE Chunks WITH T <- T0

Init == \E i \in 1 .. N : TraceInit(i) /\ C!ChunksInit(Traces[i].T, Traces[i].S, Traces[i].tol)

Id == IF Ev.k = "audio" THEN Ev.id ELSE Ev.start \div T0

Next ==
  /\ Going
  /\ \/ Silent /\ Ev.k \in {"audio", "info"} /\ Ev.whole /\ Id = made /\ C!Make(Ev.at)
     \/ Is("audio") /\ Ev.whole /\ C!Audio(Ev.c, Ev.id, Ev.start, Ev.first, Ev.n, Ev.m, Ev.at)
     \/ Is("info") /\ Ev.whole /\ C!Info(Ev.c, Id, Ev.start, Ev.first, Ev.n, Ev.at)
     \/ Is("over") /\ T.lead \in 0 .. 1000 /\ C!Complete(1, Ev.at) /\ UNCHANGED <<T0, S, tol, made, now, na, ni>>

Inv == C!TypeOK
==============================================================================
