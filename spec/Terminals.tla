------------------------------ MODULE Terminals ------------------------------
(* Operators at their terminals.  Each types lines, which are run one after    *)
(* the other, each once and as soon as the one before it is answered, whatever *)
(* goes on at the other terminals; what a line is answered is shown as it is,  *)
(* where it was typed, and nowhere else.                                       *)
EXTENDS Integers, Sequences, FiniteSets, Shell

CONSTANTS Sessions

VARIABLES table,   \* the commands: name -> [info, usage]
          at,      \* of each session: "out", "in", "left"
          typed,   \* the lines which are not answered yet
          begun,   \* whether a command is being run: of the first line not in said
          said     \* what the first of them were answered, as far as they were run

vars == <<table, at, typed, begun, said>>

Names == DOMAIN table
ExitName == <<101, 120, 105, 116>>
ClearName == <<99, 108, 101, 97, 114>>
HelpName == <<104, 101, 108, 112>>
Mine == Names \cup {HelpName}     \* what is run; others are the terminal's own

TerminalsInit(t) ==
  /\ table = t
  /\ at = [s \in Sessions |-> "out"]
  /\ typed = [s \in Sessions |-> <<>>]
  /\ begun = [s \in Sessions |-> FALSE]
  /\ said = [s \in Sessions |-> <<>>]

(* Somebody connects; without a terminal there is nothing to type at. *)
Open(s, terminal) ==
  /\ at[s] = "out"
  /\ at' = [at EXCEPT ![s] = IF terminal THEN "in" ELSE "left"]
  /\ UNCHANGED <<table, typed, begun, said>>

Enter(s, line) ==
  /\ at[s] = "in"
  /\ typed' = [typed EXCEPT ![s] = Append(@, line)]
  /\ UNCHANGED <<table, at, begun, said>>

(* A line given up is never run, nor answered. *)
Cancel(s) == at[s] = "in" /\ typed[s] = <<>> /\ UNCHANGED vars

Now(s) == Head(typed[s])
Runs(s) == at[s] = "in" /\ typed[s] # <<>>

(* The next command to be run: lines which are no commands are passed over.    *)
Ready(s) == {k \in Len(said[s]) + 1 .. Len(typed[s]) :
               /\ Command(typed[s][k]) \in Names
               /\ \A j \in Len(said[s]) + 1 .. k - 1 : Command(typed[s][j]) \notin Names \cup {ExitName}}
Nothing == [ok |-> FALSE, rows |-> <<>>]

(* A command is called with the words of the line, and returns. *)
Call(words) ==
  \E s \in Sessions :
    /\ Runs(s) /\ ~begun[s]
    /\ \E k \in Ready(s) :
         /\ Words(typed[s][k]) = words
         /\ said' = [said EXCEPT ![s] = @ \o [j \in 1 .. k - 1 - Len(@) |-> Nothing]]
    /\ begun' = [begun EXCEPT ![s] = TRUE]
    /\ UNCHANGED <<table, at, typed>>
Return(words, ok, rows) ==
  \E s \in Sessions :
    /\ Runs(s) /\ begun[s]
    /\ Words(typed[s][Len(said[s]) + 1]) = words
    /\ said' = [said EXCEPT ![s] = Append(@, [ok |-> ok, rows |-> rows])]
    /\ begun' = [begun EXCEPT ![s] = FALSE]
    /\ UNCHANGED <<table, at, typed>>

(* What is shown. *)
Blanks(k) == [i \in 1 .. k |-> Blank]
Within(w, row) == \E i \in 0 .. Len(row) - Len(w) : SubSeq(row, i + 1, i + Len(w)) = w
Tells(rows, w) == \E i \in DOMAIN rows : Within(w, rows[i])
(* The end of the last row need not be told. *)
AsItIs(rows) == IF Len(rows) > 1 /\ rows[Len(rows)] = <<>> THEN SubSeq(rows, 1, Len(rows) - 1) ELSE rows
UsageOf(rows, n) == Tells(rows, n) /\ Tells(rows, table[n].usage)
IsEntry(row, n, info) ==
  Len(row) > Len(n) + Len(info) /\ row = n \o Blanks(Len(row) - Len(n) - Len(info)) \o info
Listed(rows) ==
  /\ \A n \in Names : \E i \in DOMAIN rows :
       IsEntry(rows[i], n, table[n].info) /\ \A j \in DOMAIN rows : j # i => ~IsEntry(rows[j], n, table[n].info)
  /\ Tells(rows, ExitName) /\ Tells(rows, ClearName) /\ Tells(rows, HelpName)

Answer(s, rows) ==
  LET l == Now(s)
      c == Command(l)
      p == Params(l)
  IN IF c \in Names
       THEN /\ said[s] # <<>>
            /\ LET a == Head(said[s])
               IN IF a.ok THEN rows = AsItIs(a.rows) ELSE UsageOf(rows, c)
     ELSE IF c = HelpName
       THEN IF p = <<>> THEN Listed(rows)
            ELSE IF p[1] \in Names THEN UsageOf(rows, p[1]) /\ Tells(rows, table[p[1]].info)
            ELSE Tells(rows, p[1])
     ELSE c \notin {ExitName, ClearName} /\ (c # <<>> => Tells(rows, c))

Done(s) ==
  /\ typed' = [typed EXCEPT ![s] = Tail(@)]
  /\ said' = [said EXCEPT ![s] = IF @ = <<>> THEN @ ELSE Tail(@)]
  /\ UNCHANGED <<table, at, begun>>

Shown(s, echo, rows) ==
  /\ Runs(s) /\ echo = Now(s)
  /\ IF Answer(s, rows) THEN TRUE ELSE FALSE
  /\ Done(s)

(* The screen is empty but for the prompt. *)
Cleared(s) == Runs(s) /\ Command(Now(s)) = ClearName /\ Done(s)

(* Leaving: by a line, by a key, or by hanging up; the rest of the lines is lost. *)
Exit(s) ==
  /\ Runs(s)
  /\ \E k \in DOMAIN typed[s] :
       /\ Command(typed[s][k]) = ExitName
       /\ \A j \in Len(said[s]) + 1 .. k - 1 : Command(typed[s][j]) \notin Names
  /\ ~begun[s]
  /\ at' = [at EXCEPT ![s] = "left"] /\ UNCHANGED <<table, typed, begun, said>>
Quit(s) ==
  /\ at[s] = "in" /\ typed[s] = <<>>
  /\ at' = [at EXCEPT ![s] = "left"] /\ UNCHANGED <<table, typed, begun, said>>

(* Nothing more happens by itself: everything typed is answered, but for the   *)
(* commands which are still being run and what is typed after them; and the    *)
(* server is done with those who left, and with nobody else.                   *)
Quiet(left, running) ==
  /\ left = {s \in Sessions : at[s] = "left"}
  /\ running = {s \in Sessions : Runs(s)}
  /\ \A s \in running : begun[s] /\ said[s] = <<>>
  /\ UNCHANGED vars

TypeOK ==
  /\ at \in [Sessions -> {"out", "in", "left"}]
  /\ \A s \in Sessions : Len(said[s]) + (IF begun[s] THEN 1 ELSE 0) <= Len(typed[s])
==============================================================================
