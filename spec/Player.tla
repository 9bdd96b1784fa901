-------------------------------- MODULE Player --------------------------------
(* A player.  It gets the stream chunk by chunk, each with the time at which   *)
(* it is to be played, and hands samples and silence to the audio device.      *)
(* Stream samples are numbered; songs are separated by breaks.  A song is      *)
(* begun at its time - without what has passed by then, if it could not be     *)
(* begun earlier - and played to its end without interruption; the breaks are  *)
(* where the player gets back in step.                                         *)
EXTENDS Integers, Sequences

CONSTANTS Sec,   \* a second, in units of time
          Buf,   \* how long an output buffer is
          Fuzz   \* how exact times are

VARIABLES chunks,  \* received: [at, start, first, n, brk], brk: the runs of break samples <<from, n>> in it
          rate,    \* samples per second
          synced, off, \* when the clock was last set, -1: never, and what it is off then
          opened,  \* when the device was ready
          began,   \* when the first output was made, -1: there was none
          free,    \* since when the device has taken output without stopping, as far as known
          last, left, \* the latest sample played, -1: none, and when it left
          joined,  \* nothing was played since
          good,    \* the song is on time: begun in step, its chunks early enough, no trouble with the device
          offA     \* what the clock was off when it was begun

vars == <<chunks, rate, opened, synced, off, began, free, last, left, joined, good, offA>>

PlayerInit(r, o) ==
  /\ chunks = <<>> /\ rate = r /\ opened = o /\ synced = -1 /\ off = 0 /\ began = -1 /\ free = 0
  /\ last = -1 /\ left = 0 /\ joined = FALSE /\ good = FALSE /\ offA = 0

D(n) == (n * Sec) \div rate               \* the time n samples take

(* Chunk c holds sample g; where it is. *)
Holds(c, g) == c.first <= g /\ g < c.first + c.n
Where(g) == CHOOSE k \in 1 .. Len(chunks) : Holds(chunks[k], g)
Known(g) == \E k \in 1 .. Len(chunks) : Holds(chunks[k], g)
BreakIn(c, g) == \E k \in 1 .. Len(c.brk) : c.brk[k][1] <= g /\ g < c.brk[k][1] + c.brk[k][2]
Break(g) == BreakIn(chunks[Where(g)], g)
DueIn(c, g) == c.start + D(g - c.first)
Due(g) == DueIn(chunks[Where(g)], g)

Chunk(c) ==
  /\ chunks' = Append(chunks, c)
  /\ UNCHANGED <<rate, opened, synced, off, began, free, last, left, joined, good, offA>>

(* What comes before the device is open may be lost. *)
Lost(c) == began = -1 /\ chunks = <<>> /\ ~c.sure /\ UNCHANGED vars

Sync(at, dev) ==
  /\ synced' = at /\ off' = dev
  /\ UNCHANGED <<chunks, rate, opened, began, free, last, left, joined, good, offA>>

(* The device stops for a while: the song it happens in may be late from there.*)
Trouble(to) ==
  /\ good' = FALSE /\ free' = to
  /\ UNCHANGED <<chunks, rate, opened, synced, off, began, last, left, joined, offA>>

Max(S) == CHOOSE x \in S : \A y \in S : y <= x

(* The last sample of chunk c that is no break and before g (from lo on), -1: none. *)
RECURSIVE Back(_, _, _)
Back(c, lo, g) ==
  IF g < c.first \/ g < lo THEN -1
  ELSE LET ks == {k \in 1 .. Len(c.brk) : c.brk[k][1] <= g /\ g < c.brk[k][1] + c.brk[k][2]}
       IN IF ks = {} THEN g ELSE Back(c, lo, c.brk[CHOOSE k \in ks : TRUE][1] - 1)
Tip(c, lo, g) == Back(c, lo, IF g - 1 < c.first + c.n - 1 THEN g - 1 ELSE c.first + c.n - 1)

(* A sample is left out only if its time had passed when it could first have   *)
(* been played: when it had come, the clock was set, the device was ready and  *)
(* what was before it had been played.                                         *)
Excusable(c, h, b) ==
  DueIn(c, h) - off <= Max({c.at, synced, b, free, left}) + Buf + Fuzz
OnlyPast(lo, g, b) ==
  \A k \in 1 .. Len(chunks) :
    LET h == Tip(chunks[k], lo, g) IN h = -1 \/ Excusable(chunks[k], h, b)

(* What goes out in one buffer with sample g or after it came well before its  *)
(* time: output is made buffer by buffer.                                      *)
Per == (Buf * rate) \div Sec
Early(g) ==
  \A k \in 1 .. Len(chunks) :
    LET c == chunks[k] IN
      (c.first <= g + Per /\ g < c.first + c.n) => c.at + 2 * Buf <= DueIn(c, IF g > c.first THEN g ELSE c.first)

(* From time L on, stream samples g .. g+n-1 are put out. *)
Begun(L) == IF began = -1 THEN L ELSE began
Goes(g) == joined /\ g = last + 1                                   \* on with the song
OffBy(g) == IF Goes(g) THEN offA ELSE off
Fine(g, e) == (Goes(g) => good) /\ Early(g) /\ Early(e)
May(L, g, e, M) ==
  /\ \/ Goes(g)
     \/ /\ synced >= 0 /\ g > last
        /\ last >= 0 => Known(last + 1) /\ Break(last + 1)           \* the song before is over
        /\ Known(g)
        /\ L + off >= Due(g) - D(1) - Fuzz                           \* not early
        /\ OnlyPast(last + 1, g, Begun(L))
  /\ \A k \in {g, e} : Known(k) /\ ~Break(k)
  /\ \A k \in 1 .. Len(chunks) :                                     \* no break in between
       \A m \in 1 .. Len(chunks[k].brk) : ~(g <= chunks[k].brk[m][1] /\ chunks[k].brk[m][1] <= e)
  /\ (~Goes(g) /\ Fine(g, e)) => L + off <= Due(g) + D(1) + Fuzz       \* nor late
  /\ L + OffBy(g) >= Due(g) - Buf - Fuzz /\ M + OffBy(g) >= Due(e) - Buf - Fuzz
  /\ Fine(g, e) => L + OffBy(g) <= Due(g) + Buf + Fuzz /\ M + OffBy(g) <= Due(e) + Buf + Fuzz

Play(L, g, n) ==
  LET e == g + n - 1
      M == L + D(n - 1)
  IN /\ IF May(L, g, e, M) THEN TRUE ELSE FALSE
     /\ began' = Begun(L) /\ last' = e /\ left' = M /\ joined' = TRUE /\ good' = Fine(g, e) /\ offA' = OffBy(g)
     /\ UNCHANGED <<chunks, rate, opened, synced, off, free>>

(* Silence. *)
Rest(L) ==
  /\ began' = IF began = -1 THEN L ELSE began
  /\ joined' = FALSE
  /\ UNCHANGED <<chunks, rate, opened, synced, off, free, last, left, good, offA>>

(* In the end, what is long due has been played or had passed.  A player which *)
(* waits for the rest of a song waits.                                         *)
End == IF chunks = <<>> THEN 0 ELSE LET c == chunks[Len(chunks)] IN c.start + D(c.n)
Through(at) ==
  synced >= 0 =>
  \A k \in 1 .. Len(chunks) :
    \A h \in {Tip(chunks[k], last + 1, chunks[k].first + chunks[k].n)} \cup
             {chunks[k].first + i : i \in {0, chunks[k].n \div 2}} :
      (h > last /\ h # -1 /\ ~BreakIn(chunks[k], h) /\ DueIn(chunks[k], h) - off < at - 3 * Buf)
        => \/ Excusable(chunks[k], h, Begun(opened))
           \/ ~good /\ last >= 0 /\ at - left < 3 * Buf   \* late, but playing
           \/ last >= 0 /\ ~Known(last + 1)
           \/ ~Early(h)
           \/ DueIn(chunks[k], h) + Buf >= End           \* its buffer is not complete
Over(at) ==
  /\ IF Through(at) THEN TRUE ELSE FALSE
  /\ UNCHANGED vars
==============================================================================
