----------------------------- MODULE LevelsTrace -----------------------------
EXTENDS TraceBase
CONSTANTS Break, Unit, Full
VARIABLES low, high, vol, vols, ways
L == INSTANCE Levels

Init == \E i \in 1 .. N : TraceInit(i) /\ L!LevelsInit

Next ==
  /\ Going
  /\ \/ Is("chunk") /\ L!Chunk(Ev.l, Ev.r)
     \/ Is("volume") /\ L!Volume(Ev.q)
     \/ Is("out") /\ L!Output(Ev.l, Ev.r)
     \/ Is("end") /\ L!End
==============================================================================
