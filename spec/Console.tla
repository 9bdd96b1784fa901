------------------------------- MODULE Console -------------------------------
(* What the operators' commands do to the server, and how each is answered:   *)
(* "usage" changes nothing.                                                   *)
EXTENDS Integers, Sequences

VARIABLES list,     \* the playlist
          playing,  \* whether playback is asked to be on
          vol       \* the volume set last; 0 is the initial one, -1 an odd one

vars == <<list, playing, vol>>

Clip(p, n) == IF p < 0 THEN 0 ELSE IF p > n THEN n ELSE p
Inserted(q, s, p) ==
  LET c == Clip(p, Len(q)) IN SubSeq(q, 1, c) \o s \o SubSeq(q, c + 1, Len(q))
Without(q, p) ==
  IF q = <<>> THEN q
  ELSE LET c == Clip(p, Len(q) - 1) + 1 IN SubSeq(q, 1, c - 1) \o SubSeq(q, c + 1, Len(q))

Init == list = <<>> /\ playing = FALSE /\ vol = 0

Usage == UNCHANGED vars

(* A parameter is "none", "num" (an integer), "odd" (something that may or    *)
(* may not be taken for a number) or "bad".                                   *)
Kinds == {"none", "num", "odd", "bad"}

Queue(a, songs, k, p, reply) ==
  \/ /\ reply = "usage"
     /\ a = "none" \/ songs = <<>> \/ k \in {"odd", "bad"}
     /\ Usage
  \/ /\ reply = "result" /\ a # "none"
     /\ list' \in (IF k = "num" THEN {Inserted(list, songs, p)}
                   ELSE IF k = "odd" THEN {Inserted(list, songs, i) : i \in 0 .. Len(list)}
                   ELSE {list \o songs})
     /\ UNCHANGED <<playing, vol>>

Remove(k, p, reply) ==
  \/ reply = "usage" /\ k # "num" /\ Usage
  \/ /\ reply = "result" /\ k \in {"num", "odd"}
     /\ list' \in (IF k = "num" THEN {Without(list, p)} ELSE {Without(list, i) : i \in 0 .. Len(list)})
     /\ UNCHANGED <<playing, vol>>

Jump(k, reply) ==
  /\ reply = "usage" => k # "num"
  /\ reply = "result" => k \in {"num", "odd"}
  /\ Usage

Volume(k, v, reply) ==
  \/ reply = "usage" /\ k # "num" /\ Usage
  \/ /\ reply = "result" /\ k \in {"num", "odd"}
     /\ vol' = IF k = "num" THEN v ELSE -1
     /\ UNCHANGED <<list, playing>>

Play(b, reply) == reply = "result" /\ playing' = b /\ UNCHANGED <<list, vol>>

(* Commands that only tell something. *)
Tell(reply) == reply \in {"result", "usage"} /\ UNCHANGED vars
Unknown(reply) == reply = "unknown" /\ UNCHANGED vars

See(q, b, v) ==
  /\ q = list /\ b = playing
  /\ vol # -1 => v = vol
  /\ UNCHANGED vars

(* Somebody types something, and this is what becomes of it. *)
Anything(q, b, v) == list' = q /\ playing' = b /\ vol' = IF v < 0 THEN -1 ELSE v

TypeOK == playing \in BOOLEAN /\ vol \in Int /\ list \in Seq(Nat)
==============================================================================
