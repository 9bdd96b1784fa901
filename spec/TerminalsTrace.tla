---------------------------- MODULE TerminalsTrace ----------------------------
(* What operators did at the real server's terminals, and saw.                *)
EXTENDS TraceBase
VARIABLES table, at, typed, begun, said
X == INSTANCE Terminals WITH Sessions <- 0 .. 4

Commands ==
  [n \in {e.name : e \in Elems(T.table)} |->
     LET e == CHOOSE e \in Elems(T.table) : e.name = n IN [info |-> e.info, usage |-> e.usage]]

Init == \E i \in 1 .. N : TraceInit(i) /\ X!TerminalsInit(Commands)

Next ==
  /\ Going
  /\ \/ Is("open") /\ X!Open(Ev.s, Ev.pty)
     \/ Is("enter") /\ X!Enter(Ev.s, Ev.line)
     \/ Is("cancel") /\ X!Cancel(Ev.s)
     \/ Is("call") /\ X!Call(Ev.words)
     \/ Is("return") /\ X!Return(Ev.words, Ev.ok, Ev.rows)
     \/ Is("shown") /\ X!Shown(Ev.s, Ev.echo, Ev.rows)
     \/ Is("cleared") /\ X!Cleared(Ev.s)
     \/ Is("exit") /\ X!Exit(Ev.s)
     \/ Is("quit") /\ X!Quit(Ev.s)
     \/ Is("quiet") /\ X!Quiet(Elems(Ev.left), Elems(Ev.running))
==============================================================================
