------------------------------ MODULE InfoImpl ------------------------------
(* How the server does it: every announcement first changes the newest song or  *)
(* the ordered list of pause changes, then goes to the subscribers; a client    *)
(* joining is subscribed first and then sent copies of what is kept.  Changes   *)
(* are announced in any order.  Checked to give what Info promises.             *)
EXTENDS Info, TLC

CONSTANTS Anns,    \* announcements: records [at, f] or [at, p]
          Snapshot \* the list is copied before it is sent
MCAnns == {[at |-> 1, p |-> FALSE], [at |-> 2, p |-> TRUE], [at |-> 2, f |-> 1],
           [at |-> 3, p |-> FALSE], [at |-> 4, f |-> 2]}
MCAnnsBig == {[at |-> 1, p |-> FALSE], [at |-> 2, p |-> TRUE], [at |-> 3, f |-> 1],
           [at |-> 4, p |-> FALSE], [at |-> 5, p |-> TRUE], [at |-> 6, f |-> 2]}
IsSong(a) == "f" \in DOMAIN a

VARIABLES newest, list, \* what the server keeps: set of songs (at most one), sequence of pause changes
          pc, todo,     \* of every announcement
          jc, js, jl    \* of every joining client
ivars == <<vars, newest, list, pc, todo, jc, js, jl>>
mine == <<newest, list, pc, todo, jc, js, jl>>

Init ==
  /\ InfoInit("") /\ newest = {} /\ list = <<>>
  /\ pc = [a \in Anns |-> "new"] /\ todo = [a \in Anns |-> {}]
  /\ jc = [c \in Clients |-> "out"] /\ js = [c \in Clients |-> {}] /\ jl = [c \in Clients |-> <<>>]

Insert(q, p) ==
  LET k == Cardinality({i \in 1 .. Len(q) : q[i].at <= p.at})
  IN SubSeq(q, 1, k) \o <<p>> \o SubSeq(q, k + 1, Len(q))
Prune(q) ==
  IF newest = {} THEN q
  ELSE LET x == Newest(newest).at
           ok == {i \in 1 .. Len(q) : q[i].p /\ q[i].at <= x}
       IN IF ok = {} THEN q ELSE SubSeq(q, CHOOSE i \in ok : \A j \in ok : j <= i, Len(q))

Begin(a) ==
  /\ pc[a] = "new" /\ pc' = [pc EXCEPT ![a] = "keep"]
  /\ IF IsSong(a) THEN Song(a) ELSE Toggle(a)
  /\ UNCHANGED <<newest, list, todo, jc, js, jl>>
Keep(a) ==
  /\ pc[a] = "keep" /\ pc' = [pc EXCEPT ![a] = "list"]
  /\ IF IsSong(a)
     THEN newest' = {Newest(newest \union {a})} /\ UNCHANGED list
     ELSE list' = Prune(Insert(list, a)) /\ UNCHANGED newest
  /\ UNCHANGED <<vars, todo, jc, js, jl>>
List(a) ==
  /\ pc[a] = "list" /\ pc' = [pc EXCEPT ![a] = "send"]
  /\ todo' = [todo EXCEPT ![a] = {c \in Clients : jc[c] # "out"}]
  /\ UNCHANGED <<vars, newest, list, jc, js, jl>>
Send(a) ==
  /\ pc[a] = "send" /\ \E c \in todo[a] :
       /\ IF IsSong(a) THEN ToldSong(c, a) ELSE ToldPause(c, a)
       /\ todo' = [todo EXCEPT ![a] = @ \ {c}]
  /\ UNCHANGED <<newest, list, pc, jc, js, jl>>

Subscribe(c) ==
  /\ jc[c] = "out" /\ Join(c) /\ jc' = [jc EXCEPT ![c] = "song"]
  /\ UNCHANGED <<newest, list, pc, todo, js, jl>>
CopySong(c) ==
  /\ jc[c] = "song" /\ js' = [js EXCEPT ![c] = newest] /\ jc' = [jc EXCEPT ![c] = "tellsong"]
  /\ UNCHANGED <<vars, newest, list, pc, todo, jl>>
TellSong(c) ==
  /\ jc[c] = "tellsong" /\ jc' = [jc EXCEPT ![c] = "list"]
  /\ IF js[c] = {} THEN UNCHANGED vars ELSE \E s \in js[c] : ToldSong(c, s)
  /\ UNCHANGED <<newest, list, pc, todo, js, jl>>
CopyList(c) ==
  /\ jc[c] = "list" /\ jl' = [jl EXCEPT ![c] = list] /\ jc' = [jc EXCEPT ![c] = "telllist"]
  /\ UNCHANGED <<vars, newest, list, pc, todo, js>>
(* Without a copy the positions are read from the list as it changes. *)
Rest(c) == IF Snapshot THEN jl[c] ELSE SubSeq(list, Len(list) - Len(jl[c]) + 1, Len(list))
TellPause(c) ==
  /\ jc[c] = "telllist" /\ jl[c] # <<>>
  /\ ToldPause(c, (IF Snapshot \/ Len(list) < Len(jl[c]) THEN jl[c] ELSE Rest(c))[1])
  /\ jl' = [jl EXCEPT ![c] = Tail(@)]
  /\ UNCHANGED <<newest, list, pc, todo, jc, js>>
Welcomed(c) ==
  /\ jc[c] = "telllist" /\ jl[c] = <<>> /\ jc' = [jc EXCEPT ![c] = "in"]
  /\ UNCHANGED <<vars, newest, list, pc, todo, js, jl>>

Next == \/ \E a \in Anns : Begin(a) \/ Keep(a) \/ List(a) \/ Send(a)
        \/ \E c \in Clients : Subscribe(c) \/ CopySong(c) \/ TellSong(c) \/ CopyList(c) \/ TellPause(c) \/ Welcomed(c)

Quiet == /\ \A a \in Anns : pc[a] = "new" \/ (pc[a] = "send" /\ todo[a] = {})
         /\ \A c \in Clients : jc[c] \in {"out", "in"}
Learns == Quiet => \A c \in Clients : sub[c] > 0 => Informed(c)
Keeps == Quiet => Replay(IF newest = {} THEN <<>> ELSE <<Newest(newest)>>, list, <<"">>) /\ Determined(list)
==============================================================================
