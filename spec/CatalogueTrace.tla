---------------------------- MODULE CatalogueTrace ----------------------------
EXTENDS TraceBase
VARIABLES files, dirs, queued
C == INSTANCE Catalogue
S == INSTANCE Shell

(* "queue" and "ls" *)
QueueCmd == <<113, 117, 101, 117, 101>>
LsCmd == <<108, 115>>
Options(c, a) ==
  IF a # 0 THEN {}
  ELSE IF c = QueueCmd THEN C!SongNames
  ELSE IF c = LsCmd THEN C!SubDirs(S!Begun(Ev.line))
  ELSE {}
Offered ==
  S!Completes(Ev.line, Elems(Ev.offers), S!WordsFor(Ev.line, {}, Options))

Init == C!CatalogueInit /\ \E i \in 1 .. N : TraceInit(i)

Next ==
  /\ Going
  /\ \/ Is("fs") /\ C!Change(Elems(Ev.files), Elems(Ev.dirs))
     \/ Is("ls") /\ (IF Ev.out THEN C!ListOutside(Ev.names) ELSE C!List(Ev.dir, Ev.names))
     \/ Is("queue") /\ (IF Ev.out THEN C!QueueOutside(Ev.got) ELSE C!Queue(Ev.pat, Ev.got))
     \/ Is("complete") /\ Offered /\ UNCHANGED <<files, dirs, queued>>
     \/ Is("played") /\ Ev.right /\ C!Played(Ev.names)
==============================================================================
