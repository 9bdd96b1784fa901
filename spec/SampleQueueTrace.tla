--------------------------- MODULE SampleQueueTrace ---------------------------
EXTENDS TraceBase
CONSTANTS Ops
VARIABLES q, cap, run
Q == INSTANCE SampleQueue

Init == \E i \in 1 .. N : TraceInit(i) /\ Q!QueueInit(Traces[i].cap)

Next ==
  /\ Going
  /\ \/ Is("begin") /\ Q!Begin(Ev.o, Ev.op, Ev.x)
     \/ Silent /\ \E o \in Ops : Q!Effect(o)
     \/ Is("end") /\ Q!End(Ev.o, Ev.got)
     \/ Is("still") /\ Q!Still
==============================================================================
