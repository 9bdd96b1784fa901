----------------------------- MODULE VolumeImpl -----------------------------
(* How the server tells volumes: whoever sends one - a command to all          *)
(* subscribers, the welcome of a client to that client - reads the volume and  *)
(* its version, sends it to one client after the other, and starts over when   *)
(* the version has changed meanwhile.  Checked to settle as Volume says, for   *)
(* every interleaving.                                                         *)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS Clients, Cmds, None, Again

VARIABLES cur, ever, open, done, sub, last, ver,
          pc,     \* of each sender: a command or the welcome of a client
          val, at, todo
V == INSTANCE Volume
Senders == Cmds \cup Clients
ivars == <<cur, ever, open, done, sub, last, ver, pc, val, at, todo>>

Init ==
  /\ V!VolumeInit(0) /\ ver = 0
  /\ pc = [s \in Senders |-> IF s \in Cmds THEN "set" ELSE "join"]
  /\ val = [s \in Senders |-> 0] /\ at = [s \in Senders |-> 0] /\ todo = [s \in Senders |-> {}]

Set(k) ==
  /\ pc[k] = "set" /\ open[k] = None
  /\ V!Begin(k, k)
  /\ pc' = [pc EXCEPT ![k] = "apply"] /\ UNCHANGED <<ver, val, at, todo>>
DoApply(k) ==
  /\ pc[k] = "apply" /\ V!Apply(k) /\ ver' = ver + 1
  /\ pc' = [pc EXCEPT ![k] = "read"] /\ UNCHANGED <<val, at, todo>>
Join(c) ==
  /\ pc[c] = "join" /\ V!Subscribe(c)
  /\ pc' = [pc EXCEPT ![c] = "read"] /\ UNCHANGED <<ver, val, at, todo>>
Read(s) ==
  /\ pc[s] = "read" /\ pc' = [pc EXCEPT ![s] = "list"]
  /\ val' = [val EXCEPT ![s] = cur] /\ at' = [at EXCEPT ![s] = ver]
  /\ UNCHANGED <<cur, ever, open, done, sub, last, ver, todo>>
List(s) ==
  /\ pc[s] = "list" /\ pc' = [pc EXCEPT ![s] = "send"]
  /\ todo' = [todo EXCEPT ![s] = IF s \in Clients THEN {s} ELSE {c \in Clients : sub[c] = 1}]
  /\ UNCHANGED <<cur, ever, open, done, sub, last, ver, val, at>>
Send(s) ==
  /\ pc[s] = "send" /\ \E c \in todo[s] :
       /\ V!Told(c, val[s]) /\ todo' = [todo EXCEPT ![s] = @ \ {c}]
  /\ UNCHANGED <<ver, pc, val, at>>
Check(s) ==
  /\ pc[s] = "send" /\ todo[s] = {}
  /\ pc' = [pc EXCEPT ![s] = IF Again /\ ver # at[s] THEN "read" ELSE "end"]
  /\ UNCHANGED <<cur, ever, open, done, sub, last, ver, val, at, todo>>
End(k) ==
  /\ pc[k] = "end" /\ k \in Cmds /\ V!Accept(k)
  /\ pc' = [pc EXCEPT ![k] = "over"] /\ UNCHANGED <<ver, val, at, todo>>

Next == \/ \E k \in Cmds : Set(k) \/ DoApply(k) \/ End(k)
        \/ \E c \in Clients : Join(c)
        \/ \E s \in Senders : Read(s) \/ List(s) \/ Send(s) \/ Check(s)

Quiet == \A s \in Senders : pc[s] \in {"over", "join", "set"} \/ (s \in Clients /\ pc[s] = "end")
Settles == Quiet => V!Settled
==============================================================================
