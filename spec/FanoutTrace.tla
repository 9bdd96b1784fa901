----------------------------- MODULE FanoutTrace -----------------------------
EXTENDS TraceBase
CONSTANTS Clients, Channels, Casts
VARIABLES st, sub, hit, cast
F == INSTANCE Fanout

Init == F!Init /\ \E i \in 1 .. N : TraceInit(i)

Same == UNCHANGED <<st, sub, hit, cast>>

Next ==
  /\ Going
  /\ \/ Is("join") /\ F!Join(Ev.c)
     \/ Is("sub") /\ F!Subscribe(Ev.c, Ev.ch)
     \/ Is("leave") /\ F!Leave(Ev.c)
     \/ Is("bad") /\ F!Bad(Ev.c)
     \/ Is("failing") /\ F!Failing(Ev.c)
     \/ Is("fail") /\ F!Fail(Ev.c)
     \/ Is("calm") /\ F!Calm
     \/ Is("begin") /\ F!Begin(Ev.b, Elems(Ev.chs))
     \/ Is("recv") /\ Ev.same /\ Ev.b \in Casts /\ F!Receive(Ev.c, Ev.b)
     \/ Is("due") /\ F!Delivered(Ev.b) /\ Same
     \/ /\ Is("end")
        /\ IF T.strict
           THEN /\ Distinct(Ev.errs) /\ Ev.ok = (Ev.errs = <<>>)
                /\ F!End(Ev.b, Elems(Ev.errs))
           ELSE F!EndAnyhow(Ev.b)
     \/ Is("over") /\ (\A b \in 1 .. T.nb : F!Delivered(b)) /\ Ev.kept = <<>> /\ Ev.mb <= 1024 /\ Same

Inv == F!TypeOK
==============================================================================
