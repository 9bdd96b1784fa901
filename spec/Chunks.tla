------------------------------- MODULE Chunks -------------------------------
(* The schedule of the stream's chunks and how clients see it.  All times are  *)
(* relative to the end of the start delay; start times of chunks relative to   *)
(* the start time of the first, which is the stream delay later.               *)
EXTENDS Integers, Sequences

CONSTANTS Clients

VARIABLES T, S, tol,  \* duration and size of a chunk; how late things may be
          made,       \* chunks made so far
          now,        \* the time of the latest event
          na, ni      \* the next chunk each client gets as audio, as description; -1: any

vars == <<T, S, tol, made, now, na, ni>>

ChunksInit(t, s, late) ==
  /\ T = t /\ S = s /\ tol = late
  /\ made = 0 /\ now = 0
  /\ na = [c \in Clients |-> -1] /\ ni = [c \in Clients |-> -1]

(* Chunk k belongs to the k-th chunk duration, and is made in or right after it. *)
Make(at) ==
  /\ at >= now /\ made * T <= at /\ at <= (made + 1) * T + tol
  /\ made' = made + 1 /\ now' = at
  /\ UNCHANGED <<T, S, tol, na, ni>>

Start(k) == k * T
First(k) == k * S
Prompt(k, at) == at >= now /\ at <= (k + 1) * T + tol

(* The audio of a chunk: left and right samples, as many as configured. *)
Audio(c, k, start, first, left, right, at) ==
  /\ 0 <= k /\ k < made
  /\ na[c] \in {-1, k} /\ na' = [na EXCEPT ![c] = k + 1]
  /\ start = Start(k) /\ first = First(k) /\ left = S /\ right = S
  /\ Prompt(k, at) /\ now' = at
  /\ UNCHANGED <<T, S, tol, made, ni>>

(* Its description for displays carries no id. *)
Info(c, k, start, first, size, at) ==
  /\ 0 <= k /\ k < made
  /\ ni[c] \in {-1, k} /\ ni' = [ni EXCEPT ![c] = k + 1]
  /\ start = Start(k) /\ first = First(k) /\ size = S
  /\ Prompt(k, at) /\ now' = at
  /\ UNCHANGED <<T, S, tol, made, na>>

(* At any time every chunk due has been made, and reached a client who is there *)
(* from the beginning. *)
Complete(c, at) ==
  LET due == (at - tol) \div T IN
  made >= due /\ na[c] >= due /\ ni[c] >= due
--------------------------------------------------------------------------------
(* What follows for a client: what it gets is consecutive and adjacent.  *)
Next ==
  \/ \E at \in 0 .. 6 * T : Make(at)
  \/ \E c \in Clients, k \in 0 .. 5, at \in 0 .. 6 * T :
       Audio(c, k, Start(k), First(k), S, S, at) \/ Info(c, k, Start(k), First(k), S, at)

MCInit == ChunksInit(2, 3, 1)
TypeOK == \A c \in Clients : na[c] <= made /\ ni[c] <= made
OnTime == made * T <= now + T /\ \A c \in Clients : na[c] > 0 => now <= 6 * T
Gapless == [][\A c \in Clients : na[c] >= 0 => na'[c] \in {na[c], na[c] + 1}]_vars
==============================================================================
