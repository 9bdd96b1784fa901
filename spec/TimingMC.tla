------------------------------- MODULE TimingMC -------------------------------
(* Timing among all networks which delay, lose and reorder: the estimate is    *)
(* off by at most half the mean difference of the delays of one whole round.   *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS C, Rounds, Delays, Ini

VARIABLES sent, first, began, sum, got, est,
          now, pend,  \* requests and answers under way: [q, out, back]
          diffs       \* what the answers used were off, by round
T == INSTANCE Timing WITH Tol <- 0, Fuzz <- 0
vars == <<sent, first, began, sum, got, est, now, pend, diffs>>

Abs(x) == IF x < 0 THEN -x ELSE x
Wait == 1
Interval == C + 1

Init == T!TimingInit(Ini) /\ now = 0 /\ pend = {} /\ diffs = 0

Round == T!Begin(C, Interval, Wait, now) /\ sent < C * Rounds
         /\ diffs' = 0 /\ UNCHANGED <<now, pend>>
Ask == /\ T!Send(C, Wait, now, sent + 1)
       /\ \E out, back \in Delays :
            pend' = pend \cup {[q |-> sent + 1, out |-> out, back |-> back, at |-> now + out + back]}
       /\ UNCHANGED <<now, diffs>>
Lose == \E p \in pend : pend' = pend \ {p} /\ UNCHANGED <<sent, first, began, sum, got, est, now, diffs>>
Come == \E p \in pend :
          /\ p.at = now /\ T!Answer(C, p.q, p.out, p.back)
          /\ pend' = pend \ {p}
          /\ diffs' = IF got' # got THEN diffs + Abs(p.out - p.back) ELSE diffs
          /\ UNCHANGED now
Tick == /\ \A p \in pend : p.at > now
        /\ now < Rounds * (Interval + C) + 4
        /\ now' = now + 1
        /\ UNCHANGED <<sent, first, began, sum, got, est, pend, diffs>>
Next == Round \/ Ask \/ Lose \/ Come \/ Tick

Complete == Cardinality(got) = C
Accurate == Complete => 2 * C * Abs(est) <= diffs + 2 * C - 1     \* rounded down
Exact == (Complete /\ diffs = 0) => est = 0
OnlyWhole == [][est' # est => Cardinality(got') = C]_vars
==============================================================================
