----------------------------- MODULE ConsoleTrace -----------------------------
EXTENDS TraceBase
VARIABLES list, playing, vol
C == INSTANCE Console

Init == C!Init /\ \E i \in 1 .. N : TraceInit(i)

Run ==
  LET c == Ev.c r == Ev.r IN
  \/ c = "queue" /\ C!Queue(Ev.a, Ev.songs, Ev.kp, Ev.p, r)
  \/ c = "remove" /\ C!Remove(Ev.a, Ev.p, r)
  \/ c = "jump" /\ C!Jump(Ev.a, r)
  \/ c = "volume" /\ C!Volume(Ev.a, Ev.p, r)
  \/ c = "pause" /\ C!Play(FALSE, r)
  \/ c = "resume" /\ C!Play(TRUE, r)
  \/ c \in {"playlist", "help", "ls"} /\ C!Tell(r)
  \/ c = "clear" /\ C!Tell(r)
  \/ c = "unknown" /\ C!Unknown(r)
  \/ Ev.x /\ r = "usage" /\ C!Usage    \* more parameters than there is use for

(* Nothing else is accepted: not an answer that does not come, nor a stream   *)
(* that stops.                                                                *)
Next ==
  /\ Going
  /\ \/ Is("run") /\ Run
     \/ Is("see") /\ C!See(Ev.list, Ev.playing, Ev.vol)
     \/ Is("any") /\ C!Anything(Ev.list, Ev.playing, Ev.vol)
     \/ Is("flow") /\ Ev.n >= 1 /\ Ev.served /\ UNCHANGED <<list, playing, vol>>
==============================================================================
