-------------------------------- MODULE Timing --------------------------------
(* Synchronising a client's clock to the server's.  In rounds, the client      *)
(* sends requests; each answer takes some time there and some time back, and   *)
(* tells the clocks' difference up to half the difference of the two.  The     *)
(* estimate is replaced when all answers of the latest round have come, by the *)
(* mean of what they tell.  Estimates are given as deviations from the truth.  *)
EXTENDS Integers, Sequences

CONSTANTS Tol,  \* how exact times are
          Fuzz  \* how exact estimates are

VARIABLES sent,   \* requests sent
          first,  \* of those, how many were sent before the latest round
          began,  \* when the latest round began, -1: there was none
          sum, got, \* of what this round's answers tell: twice the sum, and their number
          est       \* the estimate

vars == <<sent, first, began, sum, got, est>>

TimingInit(e) == sent = 0 /\ first = 0 /\ began = -1 /\ sum = 0 /\ got = {} /\ est = e

Cycles(c) == sent - first = c

(* A round of c requests begins; after the first one, an interval later.       *)
Begin(c, interval, wait, at) ==
  /\ began = -1 \/ (Cycles(c) /\ at >= began + interval - Tol)
  /\ first' = sent /\ sum' = 0 /\ got' = {} /\ began' = at
  /\ UNCHANGED <<sent, est>>

Send(c, wait, at, q) ==
  /\ began # -1 /\ sent - first < c
  /\ q = sent + 1 /\ sent' = q
  /\ at >= began + (sent - first) * wait - Tol
  /\ at <= began + (sent - first) * (wait + Tol) + Tol
  /\ UNCHANGED <<first, began, sum, got, est>>

(* The answer to request q, which took the times out and back.                 *)
Answer(c, q, out, back) ==
  IF q <= first \/ q \in got
  THEN UNCHANGED vars                             \* too late to be of use
  ELSE LET s == sum + (out - back)
           g == got \cup {q}
       IN /\ sum' = s /\ got' = g
          /\ est' = IF g = first + 1 .. first + c THEN s \div (2 * c) ELSE est
          /\ UNCHANGED <<sent, first, began>>

Near(a, b) == a - b <= Fuzz /\ b - a <= Fuzz
Look(dev) == Near(dev, est) /\ UNCHANGED vars

(* The server's part: it echoes the client's time and stamps its own clock on  *)
(* receiving the request and on answering it.  Times by the server's clock.    *)
Serve(echo, asked, recv, send, come) ==
  /\ echo
  /\ asked - Fuzz <= recv /\ recv <= asked + Fuzz
  /\ recv <= send /\ send <= come
  /\ UNCHANGED vars

(* Nothing is due that did not happen. *)
InTime(c, interval, wait, at) ==
  /\ began # -1
  /\ at <= began + interval + c * (wait + Tol) + Tol
Over(c, interval, wait, at) == InTime(c, interval, wait, at) /\ UNCHANGED vars
==============================================================================
