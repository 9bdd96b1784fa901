-------------------------------- MODULE Info --------------------------------
(* What the server tells displays of songs and pauses, and what it may forget. *)
(* A song is a record [at, f]; a pause change a record [at, p].                *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Clients

VARIABLES songs,  \* announced
          togs,   \* pause changes announced
          vol,    \* the volume
          sub,    \* 0 not subscribed, 1 joining, 2 subscribed to the information channel
          gs, gp, gv, \* songs, pause changes and last volume each client was told
          must,   \* songs and pause changes broadcast while it was subscribed
          rem, nt, ns, \* what could be forgotten at some quiet time, changes and songs since
          gone    \* what has to be forgotten

vars == <<songs, togs, vol, sub, gs, gp, gv, must, rem, nt, ns, gone>>

InfoInit(v) ==
  /\ songs = {} /\ togs = {} /\ vol = v
  /\ sub = [c \in Clients |-> 0]
  /\ gs = [c \in Clients |-> {}] /\ gp = [c \in Clients |-> {}] /\ gv = [c \in Clients |-> ""]
  /\ must = [c \in Clients |-> {}]
  /\ rem = {} /\ nt = 0 /\ ns = 0 /\ gone = {}

Newest(S) == CHOOSE s \in S : \A o \in S : o.at <= s.at

(* The pause changes needed to know the state from position x on.             *)
From(P, x) ==
  LET before == {p \in P : p.p /\ p.at <= x} IN
  IF before = {} THEN P
  ELSE LET m == CHOOSE p \in before : \A o \in before : o.at <= p.at
       IN {p \in P : p.at >= m.at}
Needed(S, P) == IF S = {} THEN P ELSE From(P, Newest(S).at)

(* Playing at position x, as a display works it out from the changes it knows. *)
PlayingAt(P, x) ==
  LET before == {p \in P : p.at <= x} IN
  before = {} \/ (CHOOSE p \in before : \A o \in before : o.at <= p.at).p

Song(s) ==
  /\ songs' = songs \union {s} /\ ns' = ns + 1
  /\ must' = [c \in Clients |-> IF sub[c] = 2 THEN must[c] \union {s} ELSE must[c]]
  /\ UNCHANGED <<togs, vol, sub, gs, gp, gv, rem, nt, gone>>

Toggle(p) ==
  /\ togs' = togs \union {p} /\ nt' = nt + 1
  /\ must' = [c \in Clients |-> IF sub[c] = 2 THEN must[c] \union {p} ELSE must[c]]
  /\ UNCHANGED <<songs, vol, sub, gs, gp, gv, rem, ns, gone>>

Volume(v) ==
  /\ vol' = v
  /\ UNCHANGED <<songs, togs, sub, gs, gp, gv, must, rem, nt, ns, gone>>

Join(c) ==
  /\ sub[c] = 0 /\ sub' = [sub EXCEPT ![c] = 1]
  /\ UNCHANGED <<songs, togs, vol, gs, gp, gv, must, rem, nt, ns, gone>>

ToldSong(c, s) ==
  /\ sub[c] > 0 /\ s \in songs
  /\ gs' = [gs EXCEPT ![c] = @ \union {s}]
  /\ UNCHANGED <<songs, togs, vol, sub, gp, gv, must, rem, nt, ns, gone>>

ToldPause(c, p) ==
  /\ sub[c] > 0 /\ p \in togs
  /\ gp' = [gp EXCEPT ![c] = @ \union {p}]
  /\ UNCHANGED <<songs, togs, vol, sub, gs, gv, must, rem, nt, ns, gone>>

ToldVolume(c, v) ==
  /\ gv' = [gv EXCEPT ![c] = v]
  /\ UNCHANGED <<songs, togs, vol, sub, gs, gp, must, rem, nt, ns, gone>>

(* What a client knows once everything sent has arrived.                      *)
Informed(c) ==
  /\ songs # {} => Newest(songs) \in gs[c]
  /\ Needed(songs, togs) \subseteq gp[c]
  /\ must[c] \subseteq gs[c] \union gp[c]
  /\ gv[c] = vol

(* Nothing is under way: everybody knows everything.                          *)
Calm ==
  /\ \A c \in Clients : sub[c] > 0 => Informed(c)
  /\ sub' = [c \in Clients |-> IF sub[c] = 1 THEN 2 ELSE sub[c]]
  /\ IF nt >= 2 /\ ns >= 1 THEN gone' = gone \union rem ELSE UNCHANGED gone
  /\ IF (nt >= 2 /\ ns >= 1) \/ rem = {}
     THEN rem' = togs \ Needed(songs, togs) /\ nt' = 0 /\ ns' = 0
     ELSE UNCHANGED <<rem, nt, ns>>
  /\ UNCHANGED <<songs, togs, vol, gs, gp, gv, must>>

(* What somebody joining while nothing is under way is sent.                  *)
Sorted(q) == \A i \in 1 .. Len(q) - 1 : q[i].at < q[i + 1].at
Range(q) == {q[i] : i \in 1 .. Len(q)}
Replay(ss, ps, vs) ==
  /\ Range(ss) \subseteq songs
  /\ songs # {} => ss # <<>> /\ ss[Len(ss)] = Newest(songs)
  /\ Sorted(ps) /\ Range(ps) \subseteq togs \ gone
  /\ Needed(songs, togs) \subseteq Range(ps)
  /\ vs # <<>> /\ vs[Len(vs)] = vol

(* It determines the pause state from the newest song's start on.             *)
Determined(ps) ==
  songs # {} => \A x \in {Newest(songs).at} \union {p.at : p \in togs} :
    x >= Newest(songs).at => PlayingAt(Range(ps), x) = PlayingAt(togs, x)
==============================================================================
