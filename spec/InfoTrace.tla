------------------------------ MODULE InfoTrace ------------------------------
EXTENDS TraceBase
CONSTANTS Clients
VARIABLES songs, togs, vol, sub, gs, gp, gv, must, rem, nt, ns, gone
I == INSTANCE Info

Same == UNCHANGED <<songs, togs, vol, sub, gs, gp, gv, must, rem, nt, ns, gone>>
S == [at |-> Ev.at, f |-> Ev.f]
P == [at |-> Ev.at, p |-> Ev.p]

Init == \E i \in 1 .. N : TraceInit(i) /\ I!InfoInit(Traces[i].vol)

Next ==
  /\ Going
  /\ \/ Is("song") /\ I!Song(S)
     \/ Is("tog") /\ I!Toggle(P)
     \/ Is("vol") /\ I!Volume(Ev.v)
     \/ Is("join") /\ I!Join(Ev.c)
     \/ Is("toldsong") /\ Ev.same /\ I!ToldSong(Ev.c, S)
     \/ Is("toldtog") /\ I!ToldPause(Ev.c, P)
     \/ Is("toldvol") /\ I!ToldVolume(Ev.c, Ev.v)
     \/ Is("calm") /\ I!Calm
     \/ Is("probe") /\ Ev.same /\ I!Replay(Ev.songs, Ev.togs, Ev.vols) /\ I!Determined(Ev.togs) /\ Same
     \/ Is("audio") /\ Ev.songs = <<>> /\ Ev.togs = <<>> /\ Ev.vols # <<>> /\ Elems(Ev.vols) = {vol} /\ Ev.other = 0 /\ Same
==============================================================================
