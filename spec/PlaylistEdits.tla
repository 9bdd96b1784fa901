---------------------------- MODULE PlaylistEdits ----------------------------
(* The playlist as a list, and the operators' edits of it: each takes effect   *)
(* at one moment between its beginning and its answer, song by song if it adds *)
(* several.                                                                    *)
EXTENDS Integers, Sequences

CONSTANTS Ops   \* edits which can be under way at the same time

VARIABLES list,  \* the playlist
          run    \* what is under way

vars == <<list, run>>

Clip(p, n) == IF p < 0 THEN 0 ELSE IF p > n THEN n ELSE p
InsertAt(l, f, p) ==
  LET c == Clip(p, Len(l)) IN SubSeq(l, 1, c) \o <<f>> \o SubSeq(l, c + 1, Len(l))
RemoveIdx(l, p) == Clip(p, Len(l) - 1) + 1
RemoveAt(l, p) ==
  IF l = <<>> THEN l
  ELSE LET c == RemoveIdx(l, p) IN SubSeq(l, 1, c - 1) \o SubSeq(l, c + 1, Len(l))

Idle == [op |-> "none", songs |-> <<>>, p |-> 0, fix |-> FALSE, got |-> <<>>]
EditsInit == list = <<>> /\ run = [o \in Ops |-> Idle]

(* op: "add", "insert", "remove" or "list". *)
Begin(o, op, songs, p) ==
  /\ run[o].op = "none"
  /\ run' = [run EXCEPT ![o] = [op |-> op, songs |-> songs, p |-> p, fix |-> FALSE, got |-> <<>>]]
  /\ UNCHANGED list

Append1(o) ==
  /\ run[o].op = "add" /\ run[o].songs # <<>>
  /\ list' = Append(list, Head(run[o].songs))
  /\ run' = [run EXCEPT ![o].songs = Tail(@)]

(* The position is clipped to the list as it is then; several songs follow it. *)
Fix(o) ==
  /\ run[o].op = "insert" /\ ~run[o].fix
  /\ run' = [run EXCEPT ![o].p = Clip(@, Len(list)), ![o].fix = TRUE]
  /\ UNCHANGED list
Insert1(o) ==
  /\ run[o].op = "insert" /\ run[o].fix /\ run[o].songs # <<>>
  /\ list' = InsertAt(list, Head(run[o].songs), run[o].p)
  /\ run' = [run EXCEPT ![o].songs = Tail(@), ![o].p = @ + 1]

Remove(o) ==
  /\ run[o].op = "remove" /\ ~run[o].fix
  /\ list' = RemoveAt(list, run[o].p)
  /\ run' = [run EXCEPT ![o].fix = TRUE,
                        ![o].got = IF list = <<>> THEN <<>> ELSE <<list[RemoveIdx(list, run[o].p)]>>]

Look(o) ==
  /\ run[o].op = "list" /\ ~run[o].fix
  /\ run' = [run EXCEPT ![o].fix = TRUE, ![o].got = list]
  /\ UNCHANGED list

Effect(o) == Append1(o) \/ Fix(o) \/ Insert1(o) \/ Remove(o) \/ Look(o)

(* The answer: the song removed (if any), or the list. *)
End(o, got) ==
  /\ run[o].op # "none" /\ run[o].songs = <<>>
  /\ run[o].op \in {"remove", "list"} => run[o].fix
  /\ got = run[o].got
  /\ run' = [run EXCEPT ![o] = Idle]
  /\ UNCHANGED list
==============================================================================
