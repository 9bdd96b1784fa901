------------------------------- MODULE Volume -------------------------------
(* The volume the operator sets and what the clients are told of it.          *)
EXTENDS Integers, FiniteSets

CONSTANTS Clients, Cmds, None

VARIABLES cur,   \* the volume in force
          ever,  \* every volume that ever was
          open,  \* the volume a running command is about to set
          done,  \* running commands which have set theirs
          sub,   \* 0: the client is not subscribed, 1: it is
          last   \* the last volume it was told

vars == <<cur, ever, open, done, sub, last>>

VolumeInit(v) ==
  /\ cur = v /\ ever = {v}
  /\ open = [k \in Cmds |-> None] /\ done = {}
  /\ sub = [c \in Clients |-> 0] /\ last = [c \in Clients |-> None]

Begin(k, v) ==
  /\ open[k] = None /\ open' = [open EXCEPT ![k] = v]
  /\ UNCHANGED <<cur, ever, done, sub, last>>

Apply(k) ==
  /\ open[k] # None
  /\ cur' = open[k] /\ ever' = ever \union {open[k]}
  /\ open' = [open EXCEPT ![k] = None] /\ done' = done \union {k}
  /\ UNCHANGED <<sub, last>>

Accept(k) ==
  /\ k \in done /\ done' = done \ {k}
  /\ UNCHANGED <<cur, ever, open, sub, last>>

(* A command answered with its usage never set anything. *)
Reject(k) ==
  /\ open[k] # None /\ open' = [open EXCEPT ![k] = None]
  /\ UNCHANGED <<cur, ever, done, sub, last>>

Subscribe(c) ==
  /\ sub' = [sub EXCEPT ![c] = 1]
  /\ UNCHANGED <<cur, ever, open, done, last>>

Leave(c) ==
  /\ sub' = [sub EXCEPT ![c] = 0]
  /\ UNCHANGED <<cur, ever, open, done, last>>

(* A client is told a volume: one that was in force at some time. *)
Told(c, v) ==
  /\ sub[c] = 1 /\ v \in ever
  /\ last' = [last EXCEPT ![c] = v]
  /\ UNCHANGED <<cur, ever, open, done, sub>>

(* Once all is delivered, everybody knows the volume in force. *)
Settled ==
  /\ done = {} /\ \A k \in Cmds : open[k] = None
  /\ \A c \in Clients : sub[c] = 1 => last[c] = cur
==============================================================================
