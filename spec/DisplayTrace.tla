---------------------------- MODULE DisplayTrace ----------------------------
EXTENDS TraceBase
CONSTANTS Sec, Ms, Parts
VARIABLES rate, width, height, songs, chunks, toggles, volume
D == INSTANCE Display

Init == \E i \in 1 .. N : TraceInit(i) /\ D!DisplayInit(Traces[i].rate, Traces[i].width, Traces[i].shown)

Next ==
  /\ Going
  /\ \/ Is("song") /\ D!HearSong(Ev.s)
     \/ Is("chunk") /\ D!HearChunk([start |-> Ev.start, first |-> Ev.first, n |-> Ev.n])
     \/ Is("pause") /\ D!HearToggle([at |-> Ev.at, on |-> Ev.on])
     \/ Is("volume") /\ D!HearVolume(Ev.q)
     \/ Is("resize") /\ D!Resize(Ev.width, Ev.shown)
     \/ Is("draw") /\ D!Draw(Ev.at, Ev)
==============================================================================
