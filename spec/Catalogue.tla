------------------------------ MODULE Catalogue ------------------------------
(* The music directory: which songs there are, what their names are, and      *)
(* which of them a name or pattern stands for.  A path is a sequence of       *)
(* components, these and names are sequences of code points.                  *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES files,   \* the paths of all files
          dirs,    \* the paths of all directories
          queued   \* the playlist: paths

vars == <<files, dirs, queued>>

Slash == 47
Mp3 == <<46, 109, 112, 51>>  \* ".mp3"
Last(q) == q[Len(q)]
EndsWith(w, s) == Len(w) >= Len(s) /\ SubSeq(w, Len(w) - Len(s) + 1, Len(w)) = s
StartsWith(w, p) == Len(w) >= Len(p) /\ SubSeq(w, 1, Len(p)) = p

RECURSIVE Name(_)
Name(path) == IF Len(path) = 1 THEN path[1] ELSE path[1] \o <<Slash>> \o Name(Tail(path))

Songs == {f \in files : EndsWith(Last(f), Mp3)}
Below(dir) == {f \in Songs : Len(f) > Len(dir) /\ StartsWith(f, dir)}

(* ------------------------------- patterns -------------------------------- *)
Star == 42
Any == 63
Open == 91
Close == 93
Not == 94
Dash == 45
Esc == 92

(* A character of a class: its value and what follows, or "bad".              *)
Char(p) ==
  IF p = <<>> \/ Head(p) \in {Dash, Close} THEN [ok |-> FALSE]
  ELSE IF Head(p) = Esc
    THEN IF Len(p) < 3 THEN [ok |-> FALSE] ELSE [ok |-> TRUE, c |-> p[2], rest |-> SubSeq(p, 3, Len(p))]
  ELSE IF Len(p) < 2 THEN [ok |-> FALSE] ELSE [ok |-> TRUE, c |-> p[1], rest |-> Tail(p)]

(* The ranges of a class, of which some have been read.                       *)
RECURSIVE Ranges(_, _)
Ranges(p, rs) ==
  IF p # <<>> /\ Head(p) = Close /\ rs # {} THEN [ok |-> TRUE, rs |-> rs, rest |-> Tail(p)]
  ELSE LET a == Char(p) IN
    IF ~a.ok THEN [ok |-> FALSE]
    ELSE IF Head(a.rest) # Dash THEN Ranges(a.rest, rs \cup {<<a.c, a.c>>})
    ELSE LET b == Char(Tail(a.rest)) IN
      IF ~b.ok THEN [ok |-> FALSE] ELSE Ranges(b.rest, rs \cup {<<a.c, b.c>>})

Class(p) ==  \* p follows the opening bracket
  LET neg == p # <<>> /\ Head(p) = Not
      r == Ranges(IF neg THEN Tail(p) ELSE p, {})
  IN  IF r.ok THEN [ok |-> TRUE, neg |-> neg, rs |-> r.rs, rest |-> r.rest] ELSE r

In(c, k) == (\E r \in k.rs : r[1] <= c /\ c <= r[2]) # k.neg

RECURSIVE WellFormed(_)
WellFormed(p) ==
  IF p = <<>> THEN TRUE
  ELSE IF Head(p) = Esc THEN Len(p) > 1 /\ WellFormed(SubSeq(p, 3, Len(p)))
  ELSE IF Head(p) = Open THEN LET k == Class(Tail(p)) IN k.ok /\ WellFormed(k.rest)
  ELSE WellFormed(Tail(p))

RECURSIVE Match(_, _)
Match(p, s) ==
  IF p = <<>> THEN s = <<>>
  ELSE IF Head(p) = Star THEN \E i \in 1 .. Len(s) + 1 : Match(Tail(p), SubSeq(s, i, Len(s)))
  ELSE IF s = <<>> THEN FALSE
  ELSE IF Head(p) = Any THEN Match(Tail(p), Tail(s))
  ELSE IF Head(p) = Open THEN LET k == Class(Tail(p)) IN In(Head(s), k) /\ Match(k.rest, Tail(s))
  ELSE IF Head(p) = Esc THEN p[2] = Head(s) /\ Match(SubSeq(p, 3, Len(p)), Tail(s))
  ELSE Head(p) = Head(s) /\ Match(Tail(p), Tail(s))

(* A pattern has a component for each component of the paths it matches.      *)
Matching(pat) ==
  IF \E i \in 1 .. Len(pat) : ~WellFormed(pat[i]) THEN {}
  ELSE {f \in Songs : Len(f) = Len(pat) /\ \A i \in 1 .. Len(pat) : Match(pat[i], f[i])}

(* A listed name stands for the song alone, whatever pattern it is as well.   *)
Meant(pat) == IF pat \in Songs THEN {pat} ELSE Matching(pat)

(* --------------------------------- order ---------------------------------- *)
RECURSIVE Before(_, _)
Before(a, b) ==
  IF a = <<>> THEN b # <<>>
  ELSE IF b = <<>> THEN FALSE
  ELSE IF Head(a) = Head(b) THEN Before(Tail(a), Tail(b)) ELSE Head(a) < Head(b)
RECURSIVE PathBefore(_, _)
PathBefore(a, b) ==
  IF a = <<>> THEN b # <<>>
  ELSE IF b = <<>> THEN FALSE
  ELSE IF Head(a) = Head(b) THEN PathBefore(Tail(a), Tail(b)) ELSE Before(Head(a), Head(b))
NameBefore(a, b) == Before(Name(a), Name(b))

Ordered(q, less(_, _)) == \A i \in 1 .. Len(q) - 1 : less(q[i], q[i + 1])
InOrder(q) == Ordered(q, PathBefore) \/ Ordered(q, NameBefore)

(* -------------------------------- actions --------------------------------- *)
Elements(q) == {q[i] : i \in 1 .. Len(q)}
Once(q) == \A i, j \in 1 .. Len(q) : i # j => q[i] # q[j]

Holds(p) == IF p THEN TRUE ELSE FALSE  \* spares TLC from taking it for an action

CatalogueInit == files = {} /\ dirs = {} /\ queued = <<>>

Change(fs, ds) == files' = fs /\ dirs' = ds /\ queued' = queued

(* The names listed for a directory. *)
List(dir, names) ==
  /\ Holds(Once(names) /\ Elements(names) = {Name(f) : f \in Below(dir)})
  /\ UNCHANGED vars
(* Names which lead out of the music directory show nothing outside it. *)
ListOutside(names) ==
  /\ Elements(names) \subseteq {Name(f) : f \in Songs}
  /\ UNCHANGED vars

(* Queueing adds songs q at the end. *)
Queue(pat, q) ==
  /\ Holds(Once(q) /\ Elements(q) = Meant(pat) /\ InOrder(q))
  /\ queued' = queued \o q
  /\ UNCHANGED <<files, dirs>>

QueueOutside(q) ==
  /\ Elements(q) \subseteq Songs
  /\ queued' = queued \o q
  /\ UNCHANGED <<files, dirs>>

(* The songs announced as they begin, in the order of the playlist. *)
Played(names) ==
  /\ (names = <<>>) = (queued = <<>>)
  /\ Holds(\A i \in 1 .. Len(names) : names[i] = Name(queued[((i - 1) % Len(queued)) + 1]))
  /\ UNCHANGED vars

SongNames == {Name(f) : f \in Songs}
(* The directories offered after a prefix: no further down than the next one. *)
SubDirs(prefix) ==
  {n \o <<Slash>> : n \in {n \in {Name(d) : d \in dirs} :
     /\ StartsWith(n, prefix)
     /\ \A i \in Len(prefix) + 1 .. Len(n) : n[i] # Slash}}
==============================================================================
