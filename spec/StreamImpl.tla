----------------------------- MODULE StreamImpl -----------------------------
(* How the playlist produces the stream: its loop chooses a song and forgets  *)
(* the jumps so far, opens it, pushes it block by block - looking whether it  *)
(* is to play before each block and whether there was a jump after each - and *)
(* pushes a break.  Operators act in between.  At most two jumps are kept     *)
(* pending.  (That a song chosen is gone before it begins is left out here.)  *)
(* Checked to refine Stream: what the loop decides is what the specification  *)
(* of the stream allows, and within a block of the request.                   *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Block, NB, Idle,
          MaxX,     \* samples
          MaxOps,   \* requests
          Fs        \* the files

VARIABLES list, position, force, want, last, pc, cur, song, failed, off, n, x, ops,
          cutBy, togBy, idleBy   \* as in Stream

v == <<list, position, force, want, last, pc, cur, song, failed, off, n, x, ops, cutBy, togBy, idleBy>>

Ok(f) == Fs[f].ok
InSong == pc \in {"open", "song", "music", "pause", "check"} /\ Ok(cur)
Skipping == pc = "open" /\ ~Ok(cur)

S == INSTANCE Stream WITH
  Slack <- Block, IdleMax <- Idle,
  files <- Fs, nb <- NB,
  pos <- IF Skipping /\ force = 0 THEN position + 1 ELSE position,
  playing <- last,
  st <- IF InSong THEN "song" ELSE IF pc \in {"brk", "broken"} THEN "break" ELSE IF pc \in {"idle", "idled"} THEN "idle" ELSE "between",
  cur <- song,
  rest <- IF pc = "brk" THEN NB ELSE 0,
  skips <- IF Skipping THEN failed + 1 ELSE IF InSong THEN 0 ELSE failed,
  jump <- InSong /\ force > 0,
  off <- off

Init ==
  /\ list = <<>> /\ position = 0 /\ force = 0 /\ want = FALSE /\ last = TRUE
  /\ pc = "top" /\ cur = 0 /\ song = 0 /\ failed = 0 /\ off = 0 /\ n = 0 /\ x = 0 /\ ops = 0
  /\ cutBy = 0 /\ togBy = 0 /\ idleBy = 0

\* the loop
Top ==
  /\ pc = "top"
  /\ force' = 0
  /\ position' = IF list = <<>> THEN position ELSE position % Len(list)
  /\ IF Len(list) <= failed
     THEN pc' = "idle" /\ failed' = 0 /\ idleBy' = x + Idle /\ UNCHANGED <<cur, song, off, togBy>>
     ELSE LET f == list[(position % Len(list)) + 1] IN
          /\ pc' = "open" /\ cur' = f /\ song' = IF Ok(f) THEN f ELSE song
          /\ IF Ok(f) THEN off' = 0 /\ togBy' = x + Block ELSE UNCHANGED <<off, togBy>>
          /\ UNCHANGED <<failed, idleBy>>
  /\ UNCHANGED <<list, want, last, n, x, ops, cutBy>>

Open ==
  /\ pc = "open"
  /\ IF Ok(cur)
     THEN pc' = "song" /\ failed' = 0 /\ UNCHANGED position
     ELSE /\ pc' = "top" /\ failed' = failed + 1
          /\ position' = IF force = 0 THEN position + 1 ELSE position
  /\ UNCHANGED <<list, force, want, last, cur, song, off, n, x, ops, cutBy, togBy, idleBy>>

Look ==
  /\ pc = "song"
  /\ last' = want
  /\ pc' = IF want THEN "music" ELSE "pause"
  /\ UNCHANGED <<list, position, force, want, cur, song, failed, off, n, x, ops, cutBy, togBy, idleBy>>

Push ==
  /\ pc \in {"music", "pause"}
  /\ LET m == IF pc = "pause" THEN Block
              ELSE IF Fs[cur].len - off < Block THEN Fs[cur].len - off ELSE Block
     IN n' = m /\ x' = x + m /\ off' = IF pc = "pause" THEN off ELSE off + m
  /\ pc' = "check"
  /\ UNCHANGED <<list, position, force, want, last, cur, song, failed, ops, cutBy, togBy, idleBy>>

Check ==
  /\ pc = "check"
  /\ IF force > 0 THEN pc' = "brk" /\ force' = force - 1 /\ UNCHANGED position
     ELSE IF n < Block THEN pc' = "brk" /\ position' = position + 1 /\ UNCHANGED force
     ELSE pc' = "song" /\ UNCHANGED <<position, force>>
  /\ UNCHANGED <<list, want, last, cur, song, failed, off, n, x, ops, cutBy, togBy, idleBy>>

Break ==
  /\ pc = "brk" /\ pc' = "broken" /\ x' = x + NB
  /\ UNCHANGED <<list, position, force, want, last, cur, song, failed, off, n, ops, cutBy, togBy, idleBy>>

Wait ==
  /\ pc = "idle" /\ pc' = "idled" /\ x' = x + Idle
  /\ UNCHANGED <<list, position, force, want, last, cur, song, failed, off, n, ops, cutBy, togBy, idleBy>>

Again ==
  /\ pc \in {"broken", "idled"} /\ pc' = "top"
  /\ UNCHANGED <<list, position, force, want, last, cur, song, failed, off, n, x, ops, cutBy, togBy, idleBy>>

\* operators
Request ==
  /\ ops < MaxOps /\ ops' = ops + 1
  /\ \/ /\ \/ \E f \in DOMAIN Fs : list' = Append(list, f)
           \/ \E f \in DOMAIN Fs : \E p \in {0, 1} : list' = S!InsertAt(list, f, p)
           \/ \E p \in {0, 1} : list' = S!RemoveAt(list, p)
        /\ UNCHANGED <<position, force, want, cutBy, togBy>>
     \/ /\ \E p \in {0, 1, 3} : position' = p
        /\ force' = IF force < 2 THEN force + 1 ELSE force
        /\ cutBy' = IF InSong THEN (IF force > 0 THEN S!Min(cutBy, x + Block) ELSE x + Block) ELSE cutBy
        /\ UNCHANGED <<list, want, togBy>>
     \/ /\ want' \in BOOLEAN /\ togBy' = x + Block
        /\ UNCHANGED <<list, position, force, cutBy>>
  /\ UNCHANGED <<last, pc, cur, song, failed, off, n, x, idleBy>>

Loop == Top \/ Open \/ Look \/ Push \/ Check \/ Break \/ Wait \/ Again
Next == x < MaxX /\ (Loop \/ Request)
Spec == Init /\ [][Next]_v /\ WF_v(x < MaxX /\ Loop)

\* what Stream allows
Allowed ==
  \/ \E f \in DOMAIN Fs : S!Add(f) \/ S!StartSong(f, Fs[f].len) \/ \E p \in {0, 1} : S!Insert(f, p)
  \/ \E p \in {0, 1} : S!Remove(p)
  \/ \E p \in {0, 1, 3} : S!Jump(p, x + Block)
  \/ \E b \in BOOLEAN : S!SetPlaying(b, x + Block) \/ S!Toggle(b)
  \/ S!Decide
  \/ \E k \in 0 .. Block : S!Music(song, off, k)
  \/ \E k \in 0 .. Idle + NB + Block : S!Silence(k)
Refines == S!StreamInit(Fs, NB, <<>>) /\ [][Allowed]_(S!vars)

TypeOK == S!TypeOK

\* playback never stalls: the stream goes on for ever
GoesOn == \A k \in 1 .. MaxX : <>(x >= k)
=============================================================================
