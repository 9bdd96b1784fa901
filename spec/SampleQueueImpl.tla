---------------------------- MODULE SampleQueueImpl ----------------------------
(* The queue as it is built: a ring with head and tail counted modulo twice    *)
(* its size, a lock and one condition all waiting operations wait for, which   *)
(* every change wakes.  It behaves like SampleQueue, and no wakeup is lost     *)
(* (waking just one waiter instead would not do: Wake = "one" fails).          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Ops, Cap, Wake, Rounds

VARIABLES buf, head, tail, lock, pc, kind, item, sleeping, woken, left, next, got,
          q, cap, run     \* SampleQueue's

A == INSTANCE SampleQueue

vars == <<buf, head, tail, lock, pc, kind, item, sleeping, woken, left, next, got, q, cap, run>>
mine == <<buf, head, tail, lock, pc, kind, item, sleeping, woken, left, next, got>>

Init ==
  /\ buf = [i \in 0 .. Cap - 1 |-> 0] /\ head = 0 /\ tail = 0 /\ lock = 0
  /\ pc = [o \in Ops |-> "idle"] /\ kind = [o \in Ops |-> "none"] /\ item = [o \in Ops |-> 0]
  /\ sleeping = {} /\ woken = {} /\ left = Rounds /\ next = 1 /\ got = [o \in Ops |-> 0]
  /\ A!QueueInit(Cap)

Inc(i) == (i + 1) % (2 * Cap)
Full == (tail + Cap) % (2 * Cap) = head
Empty == head = tail

Start(o) ==
  /\ pc[o] = "idle" /\ left > 0
  /\ \E k \in {"add", "remove", "peek"} :
       /\ kind' = [kind EXCEPT ![o] = k]
       /\ item' = [item EXCEPT ![o] = IF k = "add" THEN next ELSE 0]
       /\ next' = IF k = "add" THEN next + 1 ELSE next
       /\ A!Begin(o, k, IF k = "add" THEN next ELSE 0)
  /\ left' = left - 1
  /\ pc' = [pc EXCEPT ![o] = "lock"]
  /\ UNCHANGED <<buf, head, tail, lock, sleeping, woken, got>>

Lock(o) ==
  /\ pc[o] = "lock" /\ lock = 0
  /\ lock' = o /\ pc' = [pc EXCEPT ![o] = "test"]
  /\ UNCHANGED <<buf, head, tail, kind, item, sleeping, woken, left, next, got, q, cap, run>>

Must(o) == IF kind[o] = "add" THEN Full ELSE Empty

Wait(o) ==
  /\ pc[o] = "test" /\ Must(o)
  /\ sleeping' = sleeping \cup {o} /\ lock' = 0 /\ pc' = [pc EXCEPT ![o] = "wait"]
  /\ UNCHANGED <<buf, head, tail, kind, item, woken, left, next, got, q, cap, run>>

WakeUp(o) ==
  /\ pc[o] = "wait" /\ o \in woken
  /\ woken' = woken \ {o} /\ pc' = [pc EXCEPT ![o] = "lock"]
  /\ UNCHANGED <<buf, head, tail, lock, kind, item, sleeping, left, next, got, q, cap, run>>

Rouse == IF Wake = "all" THEN woken' = woken \cup sleeping /\ sleeping' = {}
         ELSE IF sleeping = {} THEN UNCHANGED <<woken, sleeping>>
         ELSE \E o \in sleeping : woken' = woken \cup {o} /\ sleeping' = sleeping \ {o}

Do(o) ==
  /\ pc[o] = "test" /\ ~Must(o)
  /\ CASE kind[o] = "add" -> /\ buf' = [buf EXCEPT ![head % Cap] = item[o]] /\ head' = Inc(head)
                             /\ Rouse /\ UNCHANGED <<tail, got>>
       [] kind[o] = "remove" -> /\ got' = [got EXCEPT ![o] = buf[tail % Cap]] /\ tail' = Inc(tail)
                                /\ Rouse /\ UNCHANGED <<head, buf>>
       [] OTHER -> /\ got' = [got EXCEPT ![o] = buf[tail % Cap]]
                   /\ UNCHANGED <<head, tail, buf, sleeping, woken>>
  /\ A!Effect(o)
  /\ lock' = 0 /\ pc' = [pc EXCEPT ![o] = "end"]
  /\ UNCHANGED <<kind, item, left, next>>

Finish(o) ==
  /\ pc[o] = "end"
  /\ A!End(o, got[o])
  /\ pc' = [pc EXCEPT ![o] = "idle"] /\ got' = [got EXCEPT ![o] = 0]
  /\ UNCHANGED <<buf, head, tail, lock, kind, item, sleeping, woken, left, next>>

Next == \E o \in Ops : Start(o) \/ Lock(o) \/ Wait(o) \/ WakeUp(o) \/ Do(o) \/ Finish(o)

(* The abstract step was possible whenever the concrete one was: *)
Faithful ==
  \A o \in Ops :
    /\ (pc[o] = "test" /\ ~Must(o)) => A!Can(o) /\ ~run[o].done
    /\ pc[o] = "end" => run[o].done /\ run[o].got = got[o]
Quiet == \A o \in Ops : pc[o] \in {"idle", "wait"} /\ o \notin woken
NoLostWakeup == Quiet => A!Waiting
Bounded == A!Bounded
Sym == Permutations(Ops)
==============================================================================
