-------------------------------- MODULE Shell --------------------------------
(* Command lines: sequences of code points, split into words; and completions *)
(* of them.                                                                   *)
EXTENDS Integers, Sequences, SequencesExt

Blank == 32
Esc == 92

(* The words of s, read from its first character to its last: held, if the    *)
(* last one read is an escape, which may be one of the next; w is the word     *)
(* begun and ws are those before it.  The last word can be empty: nothing      *)
(* follows a blank.                                                            *)
Scan(st, c) ==
  IF st.held
    THEN [held |-> FALSE, ws |-> st.ws,
          w |-> IF c \in {Esc, Blank} THEN Append(st.w, c) ELSE st.w \o <<Esc, c>>]
  ELSE IF c = Esc THEN [st EXCEPT !.held = TRUE]
  ELSE IF c = Blank THEN [held |-> FALSE, w |-> <<>>, ws |-> Append(st.ws, st.w)]
  ELSE [st EXCEPT !.w = Append(@, c)]

Pieces(s) ==
  LET e == FoldLeft(Scan, [held |-> FALSE, w |-> <<>>, ws |-> <<>>], s)
  IN  Append(e.ws, IF e.held THEN Append(e.w, Esc) ELSE e.w)
NonEmpty(w) == w # <<>>
Command(s) == Head(Pieces(s))
Params(s) == SelectSeq(Tail(Pieces(s)), NonEmpty)

(* Writing words back as a line. *)
RECURSIVE Escaped(_)
Escaped(w) ==
  IF w = <<>> THEN <<>>
  ELSE (IF Head(w) \in {Esc, Blank} THEN <<Esc, Head(w)>> ELSE <<Head(w)>>) \o Escaped(Tail(w))
RECURSIVE Line(_)
Line(ws) == IF ws = <<>> THEN <<>> ELSE Escaped(Head(ws)) \o <<Blank>> \o Line(Tail(ws))

(* ------------------------------ completion ------------------------------- *)
StartsWith(w, p) == Len(w) >= Len(p) /\ SubSeq(w, 1, Len(p)) = p

(* What is typed: the words before the one begun (without empty parameters),  *)
(* and the one begun.                                                         *)
Begun(s) == Last(Pieces(s))
Before(s) ==
  LET p == Front(Pieces(s)) IN IF p = <<>> THEN <<>> ELSE <<Head(p)>> \o SelectSeq(Tail(p), NonEmpty)

(* options(command, number of the argument) are the words to choose from.     *)
WordsFor(s, names, options(_, _)) ==
  LET b == Before(s)
      all == IF b = <<>> THEN names ELSE options(Head(b), Len(b) - 1)
  IN  {w \in all : StartsWith(w, Begun(s))}

Words(s) == <<Command(s)>> \o Params(s)

(* The lines that result from putting one of the texts offered after what is  *)
(* typed are those which end in one of the words to choose from, and begin     *)
(* with the words typed.                                                       *)
Completes(s, texts, all) == {Words(s \o x) : x \in texts} = {Before(s) \o <<w>> : w \in all}
==============================================================================
