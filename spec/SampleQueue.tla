------------------------------ MODULE SampleQueue ------------------------------
(* The queue between the reception of chunks and the audio output: a bounded   *)
(* FIFO of timed samples.  Each operation takes effect at one moment between   *)
(* its beginning and its answer; one that cannot waits, and only then.         *)
EXTENDS Integers, Sequences

CONSTANTS Ops   \* operations which can be under way at the same time

VARIABLES q,    \* the samples in it, oldest first
          cap,  \* how many it holds at most
          run   \* what is under way

vars == <<q, cap, run>>

Idle == [op |-> "none", x |-> 0, done |-> FALSE, got |-> 0]
QueueInit(c) == q = <<>> /\ cap = c /\ run = [o \in Ops |-> Idle]

(* op: "add" (of sample x), "remove", "peek", "len" or "cap". *)
Begin(o, op, x) ==
  /\ run[o].op = "none"
  /\ run' = [run EXCEPT ![o] = [op |-> op, x |-> x, done |-> FALSE, got |-> 0]]
  /\ UNCHANGED <<q, cap>>

Can(o) ==
  CASE run[o].op = "add" -> Len(q) < cap
    [] run[o].op \in {"remove", "peek"} -> q # <<>>
    [] OTHER -> TRUE

Effect(o) ==
  /\ run[o].op # "none" /\ ~run[o].done /\ Can(o)
  /\ q' = CASE run[o].op = "add" -> Append(q, run[o].x)
            [] run[o].op = "remove" -> Tail(q)
            [] OTHER -> q
  /\ run' = [run EXCEPT ![o].done = TRUE,
                        ![o].got = CASE run[o].op \in {"remove", "peek"} -> Head(q)
                                     [] run[o].op = "len" -> Len(q)
                                     [] run[o].op = "cap" -> cap
                                     [] OTHER -> 0]
  /\ UNCHANGED cap

End(o, got) ==
  /\ run[o].done /\ run[o].got = got
  /\ run' = [run EXCEPT ![o] = Idle]
  /\ UNCHANGED <<q, cap>>

(* When nothing moves any more, only operations that have to wait are left:   *)
(* no wakeup was lost.                                                         *)
Waiting == \A o \in Ops : run[o].op # "none" => ~run[o].done /\ ~Can(o)
Still == Waiting /\ UNCHANGED vars

Bounded == Len(q) <= cap
==============================================================================
