----------------------------- MODULE LoggingTrace ----------------------------
(* Messages recorded from commands with any logging flags, against Logging.   *)
EXTENDS TraceBase

VARIABLES cut, default
L == INSTANCE Logging

Init == L!Init /\ \E i \in 1 .. N : TraceInit(i)

Next ==
  /\ Going
  /\ \/ Is("start") /\ L!Start(Elems(Ev.given))
     \/ Is("say") /\ Ev.whole /\ L!Say(Ev.by, Ev.level, Ev.out, Ev.err)
     \* of the component's own messages only those written are known
     \/ /\ Is("own")
        /\ Ev.named = Ev.by
        /\ L!Say(Ev.by, Ev.level, IF Ev.where = "out" THEN 1 ELSE 0, IF Ev.where = "err" THEN 1 ELSE 0)
=============================================================================
