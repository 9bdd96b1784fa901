----------------------------- MODULE TerminalsMC -----------------------------
(* At every terminal what is typed is answered in the order it was typed in,   *)
(* with what its own commands returned, each run once; and all of it is        *)
(* answered unless the operator leaves, even when another's command takes      *)
(* forever.                                                                    *)
EXTENDS Terminals, TLC

CONSTANTS MaxLines, Stuck  \* the session whose command never returns
VARIABLES entered, answered, calls

A == 97
Lines == {<<A>>, <<A, Blank, 98>>, ExitName, <<99>>}
TheTable == (<<A>> :> [info |-> <<105>>, usage |-> <<117>>])
all == <<vars, entered, answered, calls>>

Init ==
  /\ TerminalsInit(TheTable)
  /\ entered = [s \in Sessions |-> <<>>] /\ answered = [s \in Sessions |-> <<>>]
  /\ calls = [s \in Sessions |-> 0]

Same == UNCHANGED <<entered, answered, calls>>
(* each returns something which depends on who typed what *)
What(s, l) == <<Append(l, s)>>
IsCommand(l) == Command(l) = <<A>>

Type(s) == \E l \in Lines :
  /\ Len(entered[s]) < MaxLines
  /\ Enter(s, l)
  /\ entered' = [entered EXCEPT ![s] = Append(@, l)] /\ UNCHANGED <<answered, calls>>
Begin(s) == /\ \E k \in DOMAIN typed[s] : Call(Words(typed[s][k]))
            /\ begun'[s] # begun[s]
            /\ calls' = [calls EXCEPT ![s] = @ + 1] /\ UNCHANGED <<entered, answered>>
Finish(s) == /\ s # Stuck /\ begun[s]
             /\ LET l == typed[s][Len(said[s]) + 1] IN Return(Words(l), TRUE, What(s, l))
             /\ begun'[s] # begun[s] /\ Same
Show(s) ==
  /\ Runs(s)
  /\ \E rows \in {What(s, Now(s)), <<Now(s)>>} :
       Shown(s, Now(s), rows) /\ answered' = [answered EXCEPT ![s] = Append(@, rows)]
  /\ UNCHANGED <<entered, calls>>
Leave(s) == (Exit(s) \/ Quit(s)) /\ Same

Next == \E s \in Sessions :
  (Open(s, TRUE) /\ Same) \/ Type(s) \/ Begin(s) \/ Finish(s) \/ Show(s) \/ Leave(s)
Spec == Init /\ [][Next]_all /\ \A s \in Sessions :
  WF_all(Begin(s)) /\ WF_all(Finish(s)) /\ WF_all(Show(s)) /\ WF_all(Exit(s) /\ Same)

Own == \A s \in Sessions :
  /\ Len(answered[s]) + Len(typed[s]) = Len(entered[s])
  /\ typed[s] = SubSeq(entered[s], Len(answered[s]) + 1, Len(entered[s]))
  /\ \A i \in DOMAIN answered[s] :
       IsCommand(entered[s][i]) => answered[s][i] = <<Append(entered[s][i], s)>>
Once == \A s \in Sessions :
  calls[s] = Cardinality({i \in DOMAIN answered[s] : IsCommand(entered[s][i])}) + (IF begun[s] THEN 1 ELSE 0)
                                 + Cardinality({i \in DOMAIN said[s] : IsCommand(typed[s][i])})
Answered == \A s \in Sessions : s # Stuck => []<>(typed[s] = <<>> \/ at[s] = "left")
Apart == \A s \in Sessions : [][at[s] = "left" => UNCHANGED <<typed[s], at[s]>>]_all
==============================================================================
