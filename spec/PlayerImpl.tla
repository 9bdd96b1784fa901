----------------------------- MODULE PlayerImpl -----------------------------
(* How a player does it (playback/streamer.go, playLoop): it fills a buffer -   *)
(* in step with the clock ("sync") during breaks, sample by sample ("direct")  *)
(* within songs -, hands it to the device and waits until the device wants     *)
(* more.  It waits in the middle of a buffer for samples which have not come.  *)
(* Whatever the songs, and whenever chunks come, the clock is set and the      *)
(* device stops, this is a player as in Player.                                *)
EXTENDS Player

CONSTANTS Total,    \* stream samples
          Chunked,  \* samples in a chunk
          Start,    \* when the first one is due
          End0,     \* when it is over
          Syncs, Offs, Stalls, \* how often the clock is set, to what, and how long the device may stop
          Songs,    \* the layouts to look at, {}: all
          Hold      \* TRUE: a buffer is held back until the break is over, as it was

VARIABLES t, song,     \* which samples belong to songs
          next, mode, buf, wake, end, outs, nsync, stalled, ok
pvars == <<chunks, rate, opened, synced, off, began, free, last, left, joined, good, offA>>
ivars == <<t, song, next, mode, buf, wake, end, outs, nsync, stalled, ok>>

Init ==
  /\ PlayerInit(1, 0)
  /\ t = 0 /\ song \in IF Songs = {} THEN SUBSET (0 .. Total - 1) ELSE Songs
  /\ next = 0 /\ mode = "sync" /\ buf = <<>> /\ wake = 0 /\ end = 0 /\ outs = <<>>
  /\ nsync = 0 /\ stalled = FALSE /\ ok = TRUE

Come == Len(chunks) * Chunked                 \* what has come
DueAt(g) == Start + g
Room == Buf - Len(buf)
Quiet(n) == [i \in 1 .. n |-> -1]

Idle == t < wake \/ outs # <<>>
(* One step of filling the buffer. *)
Fill ==
  /\ outs = <<>> /\ t >= wake /\ Room > 0
  /\ IF synced = -1 /\ buf = <<>>
     THEN buf' = Quiet(Buf) /\ UNCHANGED <<next, mode>>
     ELSE /\ next < Come
          /\ IF mode = "direct"
             THEN /\ next' = next + 1
                  /\ IF next \in song THEN buf' = Append(buf, next) /\ UNCHANGED mode
                     ELSE mode' = "sync" /\ UNCHANGED buf
             ELSE LET now == t + off + Len(buf)
                      due == DueAt(next)
                  IN IF due < now \/ (next \notin song /\ (Hold \/ due < now + Room))
                     THEN next' = next + 1 /\ UNCHANGED <<mode, buf>>
                     ELSE LET s == due - now
                          IN /\ buf' = buf \o Quiet(IF Room <= s THEN Room ELSE s)
                             /\ mode' = IF Room <= s THEN "sync" ELSE "direct"
                             /\ UNCHANGED next
  /\ UNCHANGED <<pvars, t, song, wake, end, outs, nsync, stalled, ok>>

(* The runs of a buffer, as <<when, first sample or -1, number>>. *)
RECURSIVE Runs(_, _, _)
Runs(b, at, acc) ==
  IF b = <<>> THEN acc
  ELSE LET k == Len(acc)
           g == Head(b)
       IN Runs(Tail(b), at + 1,
               IF k > 0 /\ (IF acc[k][2] = -1 THEN g = -1 ELSE g = acc[k][2] + acc[k][3])
               THEN [acc EXCEPT ![k][3] = @ + 1]
               ELSE Append(acc, <<at, g, 1>>))

Write ==
  /\ outs = <<>> /\ t >= wake /\ Room = 0
  /\ outs' = Runs(buf, t, <<>>)
  /\ buf' = <<>>
  /\ \E st \in IF stalled THEN {0} ELSE Stalls :
       LET from == IF end < t + st THEN t + st ELSE end
       IN /\ end' = from + Buf
          /\ wake' = IF t + st < from + Buf - Buf \div 2 THEN from + Buf - Buf \div 2 ELSE t + st
          /\ stalled' = (stalled \/ st > 0)
          /\ free' = IF st > 0 THEN t + st ELSE free
          /\ good' = IF st > 0 /\ Len(outs') = 0 THEN FALSE ELSE good
  /\ UNCHANGED <<chunks, rate, opened, synced, off, began, last, left, joined, offA, t, song, next, mode, nsync, ok>>

(* The buffer goes out; whether that is right. *)
Out ==
  /\ outs # <<>>
  /\ LET L == Head(outs)[1]
         g == Head(outs)[2]
         n == Head(outs)[3]
         e == g + n - 1
         M == L + D(n - 1)
     IN IF g = -1
        THEN /\ began' = Begun(L) /\ joined' = FALSE
             /\ UNCHANGED <<last, left, offA, ok>>
             /\ good' = IF Len(outs) = 1 /\ free > t THEN FALSE ELSE good
        ELSE /\ ok' = (ok /\ May(L, g, e, M))
             /\ began' = Begun(L) /\ last' = e /\ left' = M /\ joined' = TRUE /\ offA' = OffBy(g)
             /\ good' = (Fine(g, e) /\ ~(Len(outs) = 1 /\ free > t))    \* it stops after this
  /\ outs' = Tail(outs)
  /\ UNCHANGED <<chunks, rate, opened, synced, off, free, t, song, next, mode, buf, wake, end, nsync, stalled>>

(* The rest of the world. *)
RECURSIVE BreakRuns(_, _, _)
BreakRuns(g, hi, acc) ==
  IF g = hi THEN acc
  ELSE LET k == Len(acc)
       IN BreakRuns(g + 1, hi,
            IF g \in song THEN acc
            ELSE IF k > 0 /\ acc[k][1] + acc[k][2] = g THEN [acc EXCEPT ![k][2] = @ + 1]
            ELSE Append(acc, <<g, 1>>))

Still == ~ENABLED Fill /\ ~ENABLED Write /\ outs = <<>>   \* the player is quick

Arrive ==
  /\ Still /\ Come + Chunked <= Total
  /\ Chunk([at |-> t, start |-> DueAt(Come), first |-> Come, n |-> Chunked, brk |-> BreakRuns(Come, Come + Chunked, <<>>), sure |-> TRUE])
  /\ UNCHANGED ivars

Set ==
  /\ Still /\ nsync < Syncs
  /\ \E o \in Offs : Sync(t, o)
  /\ nsync' = nsync + 1
  /\ UNCHANGED <<t, song, next, mode, buf, wake, end, outs, stalled, ok>>

Tick ==
  /\ Still /\ t < End0
  /\ t' = t + 1
  /\ UNCHANGED <<pvars, song, next, mode, buf, wake, end, outs, nsync, stalled, ok>>

Next == Fill \/ Write \/ Out \/ Arrive \/ Set \/ Tick

Right == ok
Ends == (t = End0 /\ Still) => Through(t)
==============================================================================
