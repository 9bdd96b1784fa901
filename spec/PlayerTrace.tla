----------------------------- MODULE PlayerTrace -----------------------------
EXTENDS TraceBase
CONSTANTS Sec, Buf, Fuzz
VARIABLES chunks, rate, opened, synced, off, began, free, last, left, joined, good, offA
P == INSTANCE Player

Init == \E i \in 1 .. N : TraceInit(i) /\ P!PlayerInit(Traces[i].rate, Traces[i].opens)

Next ==
  /\ Going
  /\ \/ Is("chunk") /\ (P!Chunk(Ev.c) \/ P!Lost(Ev.c))
     \/ Is("sync") /\ P!Sync(Ev.at, Ev.dev)
     \/ Is("trouble") /\ P!Trouble(Ev.to)
     \/ Is("play") /\ P!Play(Ev.at, Ev.g, Ev.n)
     \/ Is("rest") /\ P!Rest(Ev.at)
     \/ Is("over") /\ P!Over(Ev.at)
==============================================================================
