------------------------------- MODULE WireImpl -------------------------------
(* The framing design at the level of bytes: senders share a connection whose *)
(* Write takes its bytes in pieces but is not interrupted by another Write;   *)
(* the reader gets pieces of any size, first the length, then the body.  One  *)
(* byte may be damaged on the way; a body says which message it belongs to in *)
(* every byte, which stands for the checksum.  Checked to give what Wire      *)
(* promises.                                                                  *)
EXTENDS Wire, Sequences

CONSTANTS Sender,   \* of a message
          Size,     \* of its body
          Room      \* bytes the connection holds

VARIABLES lock, rest, \* the message whose frame is being written, and what is left of it
          pipe, buf, need, \* in transit; what the reader has of the current part; its size, or -1: the length is read
          dead      \* the reader gave up

ivars == <<vars, lock, rest, pipe, buf, need, dead>>

Frame(m) == <<Size[m]>> \o [i \in 1 .. Size[m] |-> 100 + m]

ImplInit ==
  /\ Init /\ lock = 0 /\ rest = <<>> /\ pipe = <<>> /\ buf = <<>> /\ need = -1 /\ dead = FALSE

Call(m) ==
  /\ \A x \in Msgs : Sender[x] = Sender[m] => (x < m <=> ph[x] # "no")
  /\ \A x \in Msgs : Sender[x] = Sender[m] /\ x < m => ph[x] = "sent"
  /\ ph[m] = "no"
  /\ ph' = [ph EXCEPT ![m] = "open"]
  /\ before' = [before EXCEPT ![m] = {x \in Msgs : ph[x] = "sent"}]
  /\ UNCHANGED <<got, damaged, refs, lock, rest, pipe, buf, need, dead>>
Acquire(m) ==
  /\ lock = 0 /\ ph[m] = "open" /\ m \notin got
  /\ lock' = m /\ rest' = Frame(m)
  /\ UNCHANGED <<vars, pipe, buf, need, dead>>
Push(k) ==
  /\ lock # 0 /\ k <= Len(rest) /\ Len(pipe) + k <= Room
  /\ pipe' = pipe \o SubSeq(rest, 1, k)
  /\ rest' = SubSeq(rest, k + 1, Len(rest))
  /\ UNCHANGED <<vars, lock, buf, need, dead>>
Return ==
  /\ lock # 0 /\ rest = <<>>
  /\ End(lock) /\ lock' = 0
  /\ UNCHANGED <<rest, pipe, buf, need, dead>>
Corrupt(i) ==
  /\ ~damaged /\ i <= Len(pipe)
  /\ pipe' = [pipe EXCEPT ![i] = 99]
  /\ Damage
  /\ UNCHANGED <<lock, rest, buf, need, dead>>

Want == IF need = -1 THEN 1 ELSE need
Pull(k) ==
  /\ ~dead /\ k <= Len(pipe) /\ Len(buf) + k <= Want
  /\ buf' = buf \o SubSeq(pipe, 1, k) /\ pipe' = SubSeq(pipe, k + 1, Len(pipe))
  /\ UNCHANGED <<vars, lock, rest, need, dead>>
Length ==
  /\ ~dead /\ need = -1 /\ Len(buf) = 1
  /\ IF buf[1] > 9 THEN dead' = TRUE /\ UNCHANGED <<need, buf>>
                   ELSE need' = buf[1] /\ buf' = <<>> /\ UNCHANGED dead
  /\ UNCHANGED <<vars, lock, rest, pipe>>
Valid(b) == b # <<>> /\ \A i \in 1 .. Len(b) : b[i] = b[1] /\ b[i] > 100
Body ==
  /\ ~dead /\ need >= 0 /\ Len(buf) = need
  /\ IF Valid(buf)
     THEN /\ got' = got \cup {buf[1] - 100} /\ need' = -1 /\ buf' = <<>>
          /\ UNCHANGED <<dead, ph, before, damaged, refs>>
     ELSE dead' = TRUE /\ UNCHANGED <<vars, need, buf>>
  /\ UNCHANGED <<lock, rest, pipe>>

ImplNext ==
  \/ \E m \in Msgs : Call(m) \/ Acquire(m)
  \/ \E k \in 1 .. Room : Push(k) \/ Pull(k) \/ Corrupt(k)
  \/ Return \/ Length \/ Body

(* Whatever is handed on was sent, once, in order. *)
Once == [][got' # got => /\ Cardinality(got') = Cardinality(got) + 1
                         /\ \A m \in got' \ got : ph[m] # "no" /\ before[m] \subseteq got]_ivars
(* Undamaged, everything arrives. *)
Stuck == ~ENABLED ImplNext
Arrives == Stuck /\ ~damaged => Complete /\ ~dead
(* A damaged frame ends the connection: nothing is made of it. *)
Refuses == ~damaged => ~dead
==============================================================================
