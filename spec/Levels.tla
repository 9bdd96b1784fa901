-------------------------------- MODULE Levels --------------------------------
(* What a player puts out: the samples of its chunks, song by song, each       *)
(* scaled by the volume, and silence in between.  Everything here comes in     *)
(* time; see Player for what happens otherwise.                                *)
EXTENDS Integers, Sequences

CONSTANTS Break,  \* marks break samples
          Unit,   \* a volume of 1
          Full    \* the samples of full level

VARIABLES low, high, \* the stream: what came so far, left and right
          vol,       \* the volume: the one set last
          vols,      \* what it was since the last output
          ways       \* where the output can be: <<p, in>>, the samples before p have been put
                     \* out or skipped, and p goes on a song or not (silence sounds the same)

vars == <<low, high, vol, vols, ways>>

LevelsInit == low = <<>> /\ high = <<>> /\ vol = -1 /\ vols = {} /\ ways = {<<1, FALSE>>}

Chunk(a, b) ==
  /\ low' = low \o a /\ high' = high \o b
  /\ UNCHANGED <<vol, vols, ways>>

Volume(q) ==
  /\ vol' = q /\ vols' = vols \cup {q}
  /\ UNCHANGED <<low, high, ways>>

Known(p) == p <= Len(low)
Song(p) == Known(p) /\ low[p] # Break

Clip(x) == IF x > Full - 1 THEN Full - 1 ELSE IF x < -Full THEN -Full ELSE x
Near(x, y) == x - y \in -1 .. 1
Scaled(p, q, a, b) == Near(a, Clip((low[p] * q) \div Unit)) /\ Near(b, Clip((high[p] * q) \div Unit))
Is(p, a, b) == Song(p) /\ \E q \in vols : Scaled(p, q, a, b)

RECURSIVE Start(_)
Start(p) == IF Known(p) /\ ~Song(p) THEN Start(p + 1) ELSE p    \* the next song

After(p) == <<p + 1, ~Known(p + 1) \/ Song(p + 1)>>

(* Where output <<x, y>> leads from a way. *)
Steps(w, x, y) ==
  IF w[2] /\ (~Known(w[1]) \/ Song(w[1]))
  THEN IF Is(w[1], x, y) THEN {After(w[1])} ELSE {}
  ELSE LET s == Start(w[1])
       IN (IF x = 0 /\ y = 0 THEN {<<s, FALSE>>} ELSE {})
          \cup (IF Is(s, x, y) THEN {After(s)} ELSE {})

RECURSIVE Walk(_, _, _, _)
Walk(a, b, i, ws) ==
  IF i > Len(a) THEN ws
  ELSE LET n == UNION {Steps(w, a[i], b[i]) : w \in ws} IN IF n = {} THEN {} ELSE Walk(a, b, i + 1, n)

Output(a, b) ==
  /\ ways' = Walk(a, b, 1, ways) /\ ways' # {}
  /\ vols' = {vol}
  /\ UNCHANGED <<low, high, vol>>

(* Everything has been put out. *)
End == (\E w \in ways : ~Known(Start(w[1]))) /\ UNCHANGED vars
==============================================================================
