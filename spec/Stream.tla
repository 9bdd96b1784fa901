------------------------------- MODULE Stream -------------------------------
(* The sample stream a server produces, and how the operator's edits, jumps   *)
(* and pauses shape it.  One step emits a run of samples or makes one         *)
(* decision of the streaming loop; x counts the samples emitted so far, so    *)
(* every decision has a stream index.  Requests take effect at block          *)
(* boundaries: the *By variables are the stream indices by which the loop     *)
(* must have honoured a request.                                              *)
EXTENDS Integers, Sequences

CONSTANTS Slack,    \* samples a request may stay without effect
          IdleMax   \* samples of silence before an idle server looks again

VARIABLES files,    \* what the music directory holds: sequence of [len, ok]
          nb,       \* samples of silence after each song
          list,     \* the playlist: sequence of indices into files
          pos,      \* position of the song to play (0-based, modulo the length)
          want,     \* playing state asked for
          playing,  \* playing state announced and in force
          st,       \* "between" songs, in a "song", in the "break" after one, "idle", or
                    \* "chosen": a song was, but all are removed before it begins
          cur, off, \* the song and how many of its samples were emitted
          rest,     \* samples of the break still to come
          skips,    \* unplayable songs met since the last song
          jump,     \* the current song is to be abandoned
          x,        \* samples emitted
          cutBy, togBy, idleBy

vars == <<files, nb, list, pos, want, playing, st, cur, off, rest, skips, jump, x,
          cutBy, togBy, idleBy>>

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

StreamInit(fs, brk, songs) ==
  /\ files = fs /\ nb = brk /\ list = songs
  /\ pos = 0 /\ want = FALSE /\ playing = TRUE
  /\ st = "between" /\ cur = 0 /\ off = 0 /\ rest = 0 /\ skips = 0 /\ jump = FALSE
  /\ x = 0 /\ cutBy = 0 /\ togBy = 0 /\ idleBy = 0

--------------------------------------------------------------------------------
(* Operator requests.                                                         *)
Clip(p, n) == IF p < 0 THEN 0 ELSE IF p > n THEN n ELSE p
InsertAt(l, f, p) ==
  LET c == Clip(p, Len(l)) IN SubSeq(l, 1, c) \o <<f>> \o SubSeq(l, c + 1, Len(l))
RemoveIdx(l, p) == Clip(p, Len(l) - 1) + 1
RemoveAt(l, p) ==
  IF l = <<>> THEN l
  ELSE LET c == RemoveIdx(l, p) IN SubSeq(l, 1, c - 1) \o SubSeq(l, c + 1, Len(l))

Add(f) ==
  /\ list' = Append(list, f)
  /\ UNCHANGED <<files, nb, pos, want, playing, st, cur, off, rest, skips, jump, x, cutBy, togBy, idleBy>>

Insert(f, p) ==
  /\ list' = InsertAt(list, f, p)
  /\ UNCHANGED <<files, nb, pos, want, playing, st, cur, off, rest, skips, jump, x, cutBy, togBy, idleBy>>

Remove(p) ==
  /\ list' = RemoveAt(list, p)
  /\ UNCHANGED <<files, nb, pos, want, playing, st, cur, off, rest, skips, jump, x, cutBy, togBy, idleBy>>

Jump(p, by) ==
  /\ pos' = Max(p, 0)
  /\ IF st = "song"
     THEN /\ jump' = TRUE
          /\ cutBy' = IF jump THEN Min(cutBy, by) ELSE by
     ELSE UNCHANGED <<jump, cutBy>>
  /\ UNCHANGED <<files, nb, list, want, playing, st, cur, off, rest, skips, x, togBy, idleBy>>

SetPlaying(b, by) ==
  /\ want' = b
  /\ togBy' = by
  /\ UNCHANGED <<files, nb, list, pos, playing, st, cur, off, rest, skips, jump, x, cutBy, idleBy>>

--------------------------------------------------------------------------------
(* Decisions of the streaming loop.                                           *)
Here == pos % Len(list)
HereFile == list[Here + 1]

(* The next song starts at sample x and is announced with its file and length. *)
StartSong(f, n) ==
  /\ st = "between" /\ list # <<>>
  /\ f = HereFile /\ files[f].ok /\ n = files[f].len
  /\ st' = "song" /\ cur' = f /\ off' = 0 /\ pos' = Here /\ skips' = 0
  /\ jump' = FALSE
  /\ togBy' = x + Slack
  /\ UNCHANGED <<files, nb, list, want, playing, rest, x, cutBy, idleBy>>

(* A song that cannot be opened or decoded is passed over. *)
Skip ==
  /\ st = "between" /\ list # <<>> /\ skips < Len(list)
  /\ ~files[HereFile].ok
  /\ pos' = Here + 1 /\ skips' = skips + 1
  /\ UNCHANGED <<files, nb, list, want, playing, st, cur, off, rest, jump, x, cutBy, togBy, idleBy>>

(* Nothing to play, or nothing playable in a whole round: silence for a while. *)
StartIdle ==
  /\ st \in {"between", "chosen"} /\ Len(list) <= skips
  /\ st' = "idle" /\ skips' = 0 /\ idleBy' = x + IdleMax
  /\ pos' \in {pos, IF list = <<>> THEN pos ELSE Here}   \* whether the round starts over is open
  /\ UNCHANGED <<files, nb, list, want, playing, cur, off, rest, jump, x, cutBy, togBy>>

Choose ==
  /\ st = "between" /\ list # <<>>
  /\ st' = "chosen" /\ pos' = Here
  /\ UNCHANGED <<files, nb, list, want, playing, cur, off, rest, skips, jump, x, cutBy, togBy, idleBy>>

EndIdle ==
  /\ st = "idle" /\ st' = "between"
  /\ UNCHANGED <<files, nb, list, pos, want, playing, cur, off, rest, skips, jump, x, cutBy, togBy, idleBy>>

(* A change between playing and paused takes effect, and is announced with x. *)
Toggle(b) ==
  /\ st = "song" /\ want = b /\ playing # b
  /\ playing' = b
  /\ UNCHANGED <<files, nb, list, pos, want, st, cur, off, rest, skips, jump, x, cutBy, togBy, idleBy>>

(* The current song is over: all its samples were emitted. *)
EndSong ==
  /\ st = "song" /\ playing /\ off = files[cur].len /\ ~jump
  /\ pos' = pos + 1
  /\ st' = "break" /\ rest' = nb
  /\ UNCHANGED <<files, nb, list, want, playing, cur, off, skips, jump, x, cutBy, togBy, idleBy>>

(* The current song is abandoned because of a jump. *)
CutSong ==
  /\ st = "song" /\ jump
  /\ st' = "break" /\ rest' = nb /\ jump' = FALSE
  /\ UNCHANGED <<files, nb, list, pos, want, playing, cur, off, skips, x, cutBy, togBy, idleBy>>

EndBreak ==
  /\ st = "break" /\ rest = 0 /\ st' = "between"
  /\ UNCHANGED <<files, nb, list, pos, want, playing, cur, off, rest, skips, jump, x, cutBy, togBy, idleBy>>

Decide == Skip \/ Choose \/ StartIdle \/ EndIdle \/ EndSong \/ CutSong \/ EndBreak

--------------------------------------------------------------------------------
(* Samples.                                                                   *)
Prompt(n) ==     \* no request is left without effect for too long
  /\ want # playing => x + n <= togBy
  /\ jump => x + n <= cutBy

(* n samples of song f, from its sample o on. *)
Music(f, o, n) ==
  /\ st = "song" /\ playing /\ f = cur /\ o = off /\ off + n <= files[cur].len
  /\ Prompt(n)
  /\ off' = off + n /\ x' = x + n
  /\ UNCHANGED <<files, nb, list, pos, want, playing, st, cur, rest, skips, jump, cutBy, togBy, idleBy>>

(* n samples of silence. *)
Silence(n) ==
  /\ \/ st = "song" /\ ~playing /\ Prompt(n) /\ UNCHANGED rest
     \/ st = "break" /\ n <= rest /\ rest' = rest - n
     \/ st = "idle" /\ x + n <= idleBy /\ UNCHANGED rest
  /\ x' = x + n
  /\ UNCHANGED <<files, nb, list, pos, want, playing, st, cur, off, skips, jump, cutBy, togBy, idleBy>>

--------------------------------------------------------------------------------
TypeOK ==
  /\ st \in {"between", "chosen", "song", "break", "idle"}
  /\ pos >= 0 /\ off >= 0 /\ rest >= 0 /\ x >= 0
  /\ st = "song" => off <= files[cur].len /\ files[cur].ok
  /\ st # "song" => ~jump
==============================================================================
