------------------------------ MODULE TraceBase ------------------------------
(* What the trace specifications share: many recorded traces are checked in   *)
(* one run, one initial state each; a trace is accepted when some behaviour   *)
(* consumes all its events.  Run with one worker.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
N == Len(Traces)

VARIABLES t,  \* the trace
          l   \* the event to consume next

T == Traces[t]
More == l <= Len(T.ev)
Ev == T.ev[l]
Is(k) == More /\ Ev.k = k /\ l' = l + 1 /\ t' = t
Silent == More /\ UNCHANGED <<t, l>>

TraceInit(i) == t = i /\ l = 1

ASSUME \A i \in 1 .. 2 * N : TLCSet(i, 0)

Going ==
  /\ IF More THEN TRUE ELSE TLCSet(t, 1)
  /\ IF l > TLCGet(N + t) THEN TLCSet(N + t, l) ELSE TRUE
  /\ TLCGet(t) = 0

Rejected == {i \in 1 .. N : TLCGet(i) = 0}
Accepted ==
  /\ \A i \in Rejected : PrintT(<<"REJECTED", i, TLCGet(N + i)>>)
  /\ PrintT(<<"ACCEPTED", N - Cardinality(Rejected)>>)
  /\ Rejected = {}

Elems(s) == {s[i] : i \in 1 .. Len(s)}
Distinct(s) == \A i, j \in 1 .. Len(s) : i # j => s[i] # s[j]
==============================================================================
