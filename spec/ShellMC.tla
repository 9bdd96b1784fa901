------------------------------- MODULE ShellMC -------------------------------
(* Writing words back as a line and splitting it yields the words; and the    *)
(* text that completes a word exists whatever is typed.                       *)
EXTENDS Shell, FiniteSets, TLC

CONSTANTS MaxLine, MaxWord

Chars == {Blank, Esc, 97}
Strs(n) == UNION {[1 .. k -> Chars] : k \in 0 .. n}

VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLine /\ \E c \in Chars : s' = Append(s, c)

RoundTrip == LET w == Words(s) IN
  (w[1] # <<>>) => Words(Line(w)) = w
(* dropping the empty words, each line has a shortest equivalent *)
Stable == LET w == Words(s) IN w[1] # <<>> => Line(Words(Line(w))) = Line(w)
(* a dangling backslash of what is typed must be completed by another one *)
Text(w) ==
  LET rest == SubSeq(w, Len(Begun(s)) + 1, Len(w))
      RECURSIVE Odd(_)
      Odd(i) == IF i >= 1 /\ s[i] = Esc THEN ~Odd(i - 1) ELSE FALSE
  IN  (IF Odd(Len(s)) THEN <<Esc>> ELSE <<>>) \o Escaped(rest) \o <<Blank>>
Completable ==
  \A w \in {Begun(s) \o x : x \in Strs(MaxWord)} : w # <<>> => Completes(s, {Text(w)}, {w})
==============================================================================
