----------------------------- MODULE LoginTrace -----------------------------
(* Logins recorded from real servers and ssh clients, against Login.          *)
EXTENDS TraceBase

VARIABLES users
L == INSTANCE Login WITH Nothing <- "\"\"", NoKey <- "none"

Init == \E i \in 1 .. N : TraceInit(i) /\ L!Init

Next ==
  /\ Going
  /\ \/ Is("start") /\ L!Start(Ev.kind, Elems(Ev.users))
     \/ Is("login") /\ L!Attempt(Ev.user, Ev.offers, Ev.shell)
=============================================================================
