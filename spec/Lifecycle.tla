------------------------------ MODULE Lifecycle ------------------------------
(* A command from its start to its end.  A server serves clients and operators *)
(* at the addresses it was given, presenting the host key it was given, until  *)
(* it is interrupted; a player or a display lives as long as its connection.   *)
(* What cannot do its work ends at once, with a failure; nothing else ends.    *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES conf,  \* how it was started
          due    \* how it has to end: some of "success", "failure"; {}: not at all
vars == <<conf, due>>

None == [kind |-> "none"]
Init == conf = None /\ due = {}

(* Whether it can do its work. *)
Able(c) ==
  CASE c.kind = "server"  -> c.dir = "usable" /\ c.users = "good" /\ c.free
    [] c.kind = "player"  -> c.free /\ c.audio    \* free: there is a server
    [] c.kind = "display" -> c.free

Start(c) ==
  /\ conf = None
  /\ conf' = c
  /\ due' = CASE c.how = "help" -> {"success"}
              [] c.how = "bad" -> {"failure"}
              [] c.how = "serve" -> IF Able(c) THEN {} ELSE {"failure"}

(* What ends it.  If both happen at once, either counts. *)
Interrupt == due' = due \cup {"success"} /\ UNCHANGED conf
Cut == conf.kind # "server" /\ due' = due \cup {"failure"} /\ UNCHANGED conf

(* What can be seen of it. *)
Up == due = {}
Outcome(code) == IF code = 0 THEN "success" ELSE "failure"
State(ended, peer, terminal) ==
  /\ IF Up
     THEN /\ ended = <<>>
          /\ conf.kind \in {"player", "display"} => peer = conf.clients
          /\ terminal = (conf.kind # "display")
     ELSE /\ Len(ended) = 1 /\ Outcome(ended[1]) \in due
          /\ terminal                                        \* it is given back
  /\ UNCHANGED vars

Client(at, served) ==
  /\ served = (Up /\ at = conf.clients)
  /\ UNCHANGED vars

Operator(at, key, served) ==
  /\ Up => served /\ at = conf.operators /\ (conf.key # "none" => key = conf.key)
  /\ UNCHANGED vars

Ping(n, pongs) == (Up => pongs = n) /\ UNCHANGED vars
=============================================================================
