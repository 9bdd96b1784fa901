------------------------------- MODULE Display -------------------------------
(* A display.  The server announces songs, pauses and chunks; whatever the     *)
(* order it hears of them in, and however often, the display shows the sample  *)
(* which is due according to what it knows: the song it is in, how far the     *)
(* song has been played, without pauses, its lyrics, and whether it is paused. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Sec,   \* a second, in units of time
          Ms,    \* thousandths of a second, in a second
          Parts  \* what is looked at: "song", "lyrics"

VARIABLES rate, width, height, \* samples per second; of the bar, and lines of lyrics
          songs, chunks, toggles, \* all that was announced
          volume                  \* -1: unknown

vars == <<rate, width, height, songs, chunks, toggles, volume>>

DisplayInit(r, w, h) ==
  /\ rate = r /\ width = w /\ height = h
  /\ songs = {} /\ chunks = {} /\ toggles = {} /\ volume = -1

HearSong(s) == songs' = songs \cup {s} /\ UNCHANGED <<rate, width, height, chunks, toggles, volume>>
HearChunk(c) == chunks' = chunks \cup {c} /\ UNCHANGED <<rate, width, height, songs, toggles, volume>>
HearToggle(p) == toggles' = toggles \cup {p} /\ UNCHANGED <<rate, width, height, songs, chunks, volume>>
HearVolume(q) == volume' = q /\ UNCHANGED <<rate, width, height, songs, chunks, toggles>>

(* The terminal changes: the bar and the lyrics are as wide and high as it now has room for. *)
Resize(w, h) == width' = w /\ height' = h /\ UNCHANGED <<rate, songs, chunks, toggles, volume>>

(* The sample due. *)
Tick == Sec \div rate     \* how long a sample takes
Covers(c, at) == c.start <= at /\ at - c.start < c.n * Tick
Sample(at) ==
  LET c == CHOOSE x \in chunks : Covers(x, at)
  IN c.first + (at - c.start) \div Tick

(* The song it is in, if it is in one. *)
Begun(s) == {x \in songs : x.start <= s}
Song(s) == CHOOSE x \in Begun(s) : \A y \in Begun(s) : y.start <= x.start

(* Pauses. *)
Before(s) == {p \in toggles : p.at <= s}
Last(P) == CHOOSE p \in P : \A x \in P : x.at <= p.at
Paused(s) == Before(s) # {} /\ ~Last(Before(s)).on
Later(p, s) ==      \* up to where p holds, before s
  LET F == {x.at : x \in {x \in toggles : x.at > p.at /\ x.at <= s}}
  IN IF F = {} THEN s ELSE CHOOSE a \in F : \A b \in F : a <= b
RECURSIVE Total(_, _, _)
Total(P, a, s) ==   \* paused samples from a to before s
  IF P = {} THEN 0
  ELSE LET p == CHOOSE x \in P : TRUE
           from == IF p.at < a THEN a ELSE p.at
           to == Later(p, s)
       IN (IF ~p.on /\ from < to THEN to - from ELSE 0) + Total(P \ {p}, a, s)
Played(g, s) == s - g.start - Total(Before(s), g.start, s)

(* How it is shown. *)
Two(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Clock(sec) ==
  IF sec < 3600 THEN ToString(sec \div 60) \o ":" \o Two(sec % 60)
  ELSE ToString(sec \div 3600) \o ":" \o Two((sec \div 60) % 60) \o ":" \o Two(sec % 60)
Title(g) == IF g.title # "" THEN g.title ELSE g.name
Artist(g) == IF g.artist = "" THEN "" ELSE IF g.album = "" THEN g.artist ELSE g.artist \o " - " \o g.album

Abs(x) == IF x < 0 THEN -x ELSE x
(* b half columns of the bar are filled: to within a column *)
BarIs(b, played, len) == Abs(b * len - 2 * width * played) <= 2 * len

(* Lyrics: lines of words with the time they are due, in ms. *)
Millis(played) == (played \div rate) * Ms + ((played % rate) * Ms) \div rate
NextLine(ly, ms) ==
  LET F == {i \in 1 .. Len(ly) : ly[i] # <<>> /\ ms < ly[i][1].ts}
  IN IF F = {} THEN Len(ly) + 1 ELSE CHOOSE i \in F : \A j \in F : i <= j
RECURSIVE Words(_, _, _)
Words(line, ms, k) ==
  IF k > Len(line) THEN ""
  ELSE (IF line[k].ts < ms + Ms \div 10 THEN line[k].text ELSE "") \o Words(line, ms, k + 1)
Line(ly, i, ms) == IF i < 1 \/ i > Len(ly) THEN "" ELSE Words(ly[i], ms, 1)
Lyrics(ly, ms) == [j \in 1 .. height |-> Line(ly, NextLine(ly, ms) - j, ms)]

(* What is drawn at a time. *)
InSong(g, played, d) ==
  /\ d.name = Title(g)
  /\ d.artist = Artist(g)
  /\ d.clock = Clock(played \div rate) \o "/" \o Clock(g.len \div rate)
  /\ BarIs(d.bar, played, g.len)
LyricsOf(g, played, d) == d.lines = Lyrics(g.lyrics, Millis(played))
NoSong(d) ==
  /\ d.name = "None" /\ d.artist = "" /\ d.clock = "0:00/0:00" /\ d.bar = 0

Blank(d) == d.lines = [j \in 1 .. height |-> ""]

Right(at, d) ==
  (\E c \in chunks : Covers(c, at)) =>
    LET s == Sample(at)
    IN /\ "song" \in Parts => d.state = IF Paused(s) THEN "Paused" ELSE "Playing"
       /\ IF Begun(s) = {} THEN ("song" \in Parts => NoSong(d)) /\ ("lyrics" \in Parts => Blank(d))
          ELSE LET g == Song(s)
                   played == Played(g, s)
               IN played < g.len => /\ "song" \in Parts => InSong(g, played, d)
                                    /\ "lyrics" \in Parts => LyricsOf(g, played, d)

Draw(at, d) ==
  /\ IF Right(at, d) THEN TRUE ELSE FALSE
  /\ ("song" \in Parts /\ volume >= 0) => Abs(d.vol * 128 - volume * 10000) <= 128
  /\ UNCHANGED vars
==============================================================================
