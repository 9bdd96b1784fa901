------------------------------- MODULE Lyrics -------------------------------
(* The lyrics stored beside songs, and what a server announces with a song.   *)
(* A song has a lyrics file, no lyrics file, or one which is malformed; the   *)
(* file may be replaced at any time.  A song starts with the lyrics stored    *)
(* for it - one of the documents in place since it last started - and every   *)
(* later announcement of that start carries the same.                         *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Songs

VARIABLES stored,    \* the documents each song had since it last started
          latest,    \* the one it has now
          started    \* stream index -> the song starting there and its lyrics
vars == <<stored, latest, started>>

Init ==
  /\ stored = [f \in Songs |-> {}]
  /\ latest = [f \in Songs |-> <<>>]
  /\ started = <<>>

\* what a lyrics file of a kind with a document says
Says(kind, doc) == IF kind = "good" THEN doc ELSE <<>>

Put(f, kind, doc) ==
  /\ LET d == Says(kind, doc) IN
     /\ latest' = [latest EXCEPT ![f] = d]
     /\ stored' = [stored EXCEPT ![f] = @ \cup {d}]
  /\ UNCHANGED started

Start(f, at, lyrics) ==
  /\ f \in Songs
  /\ at \notin {started[i].at : i \in 1 .. Len(started)}
  /\ lyrics \in stored[f]
  /\ stored' = [stored EXCEPT ![f] = {latest[f]}]
  /\ started' = Append(started, [f |-> f, at |-> at, lyrics |-> lyrics])
  /\ UNCHANGED latest

Tell(f, at, lyrics) ==
  /\ \E i \in 1 .. Len(started) : started[i] = [f |-> f, at |-> at, lyrics |-> lyrics]
  /\ UNCHANGED vars
=============================================================================
