----------------------------- MODULE TimingTrace -----------------------------
EXTENDS TraceBase
CONSTANTS Tol, Fuzz
VARIABLES sent, first, began, sum, got, est
C == INSTANCE Timing

Init == \E i \in 1 .. N : TraceInit(i) /\ C!TimingInit(Traces[i].ini)

Next ==
  /\ Going
  /\ \/ Silent /\ Ev.k \in {"send", "answer"} /\ C!Begin(T.cycles, T.interval, T.wait, Ev.at)
               /\ (began # -1 => C!InTime(T.cycles, T.interval, T.wait, Ev.at))
     \/ Is("send") /\ C!Send(T.cycles, T.wait, Ev.at, Ev.q)
     \/ Is("answer") /\ C!Answer(T.cycles, Ev.q, Ev.out, Ev.back)
     \/ Is("look") /\ C!Look(Ev.dev)
     \/ Is("serve") /\ C!Serve(Ev.echo, Ev.asked, Ev.recv, Ev.send, Ev.come)
     \/ Is("all") /\ Ev.open = 0 /\ UNCHANGED <<sent, first, began, sum, got, est>>
     \/ Is("over") /\ C!Over(T.cycles, T.interval, T.wait, Ev.at)
==============================================================================
