----------------------------- MODULE UnisonTrace ------------------------------
EXTENDS TraceBase
VARIABLES set, heard, said, turns, levels, node, wish, sound
U == INSTANCE Unison WITH Play <- {"a", "b"}, Look <- {"d"}

Init == \E i \in 1 .. N :
  TraceInit(i) /\ U!UnisonInit([tick |-> Traces[i].tick, rate |-> Traces[i].rate, wait |-> Traces[i].wait,
                                ahead |-> Traces[i].ahead, gap |-> Traces[i].gap])

Next ==
  /\ Going
  /\ \/ Is("volume") /\ U!Level(Ev.at, Ev.q)
     \/ Is("join") /\ U!Join(Ev.who, Ev.at, Ev.by, Ev.err, Ev.lag)
     \/ Is("chunk") /\ U!Send(Ev.at, Ev.start, Ev.pieces)
     \/ Is("song") /\ U!Announce(Ev.at, Ev.due, Ev.id)
     \/ Is("toggle") /\ U!Turn(Ev.due, Ev.on)
     \/ Is("op") /\ U!Ask(Ev.op, Ev.at, Ev.id)
     \/ Is("play") /\ U!Hear(Ev.who, Ev.w, Ev.last, Ev.at, Ev.id, Ev.pos, Ev.n, Ev.vol)
     \/ Is("show") /\ U!Show("d", Ev.at, Ev.song, Ev.sec, Ev.state = "Playing", Ev.vol)
     \/ Is("over") /\ U!Over(Ev.at)
==============================================================================
