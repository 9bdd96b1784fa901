----------------------------- MODULE LyricsTrace -----------------------------
(* Announcements recorded from a real server, against Lyrics.                 *)
EXTENDS TraceBase

VARIABLES stored, latest, started
L == INSTANCE Lyrics WITH Songs <- 1 .. 5

Init == \E i \in 1 .. N : TraceInit(i) /\ L!Init

Next ==
  /\ Going
  /\ \/ Is("put") /\ L!Put(Ev.f, Ev.kind, Ev.doc)
     \/ Is("song") /\ L!Start(Ev.f, Ev.at, Ev.lyrics)
     \/ Is("told") /\ L!Tell(Ev.f, Ev.at, Ev.lyrics)
=============================================================================
