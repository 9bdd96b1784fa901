------------------------------ MODULE ShellTrace ------------------------------
EXTENDS TraceBase, Shell

(* T.names are the commands' names, T.table what each offers for an argument. *)
Options(c, a) == UNION {Elems(e.opts) : e \in {e \in Elems(T.table) : e.c = c /\ e.a = a}}

Typed == SubSeq(Ev.line, 1, Ev.pos)
Right(offers) == Completes(Typed, Elems(offers), WordsFor(Typed, Elems(T.names), Options))

Init == \E i \in 1 .. N : TraceInit(i)

Next ==
  /\ Going
  /\ \/ Is("parse") /\ Ev.words = Words(Ev.line)
     \/ Is("write") /\ Words(Ev.line) = Ev.words /\ Ev.back = Ev.words
     \/ Is("complete") /\ Right(Ev.offers)
==============================================================================
