-------------------------- MODULE PlaylistEditsTrace --------------------------
EXTENDS TraceBase
CONSTANTS Ops
VARIABLES list, run
E == INSTANCE PlaylistEdits

Init == E!EditsInit /\ \E i \in 1 .. N : TraceInit(i)

Next ==
  /\ Going
  /\ \/ Is("begin") /\ E!Begin(Ev.o, Ev.op, Ev.songs, Ev.p)
     \/ Silent /\ \E o \in Ops : E!Effect(o)
     \/ Is("end") /\ E!End(Ev.o, Ev.got)
==============================================================================
