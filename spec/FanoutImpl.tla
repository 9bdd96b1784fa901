------------------------------ MODULE FanoutImpl ------------------------------
(* The server's design: a connection table guarded by one lock, broadcasts    *)
(* that take a snapshot of the recipients under the lock and write to all of  *)
(* them in parallel without it, one goroutine per connection that adds,       *)
(* subscribes and removes it.  Checked to give what Fanout promises, under    *)
(* every interleaving.                                                        *)
EXTENDS Fanout

VARIABLES table, \* connections the server knows
          ssub,  \* their subscriptions as the server knows them
          asked, \* subscription requests under way
          todo,  \* clients a broadcast still has to write to
          wrote, \* clients it has written to
          errs   \* and those it failed to write to

ivars == <<vars, table, ssub, asked, todo, wrote, errs>>
server == <<table, ssub, asked, todo, wrote, errs>>

ImplInit ==
  /\ Init
  /\ table = {} /\ ssub = {} /\ asked = {}
  /\ todo = [b \in Casts |-> {}] /\ wrote = [b \in Casts |-> {}] /\ errs = [b \in Casts |-> {}]

Gone(c) == st[c] \in {"leaving", "gone"}
Broken(c) == st[c] \in {"leaving", "gone", "bad", "failed"}

(* What clients do. *)
ClientStep ==
  \/ \E c \in Clients : /\ st[c] = "out" /\ Join(c)
                        /\ UNCHANGED server
  \/ \E c \in Clients, ch \in Channels :
       /\ st[c] \in {"joining", "in"} /\ sub[c][ch] = 0 /\ Subscribe(c, ch)
       /\ asked' = asked \cup {<<c, ch>>} /\ UNCHANGED <<table, ssub, todo, wrote, errs>>
  \/ \E c \in Clients : /\ st[c] \in {"joining", "in", "failed"} /\ Leave(c) /\ UNCHANGED server
  \/ \E c \in Clients : /\ st[c] = "in" /\ Failing(c) /\ UNCHANGED server
  \/ \E c \in Clients : /\ st[c] = "failing" /\ Fail(c) /\ UNCHANGED server

(* What the connections' goroutines do. *)
Add(c) ==
  /\ st[c] \in {"joining"} /\ c \notin table
  /\ table' = table \cup {c} /\ UNCHANGED <<vars, ssub, asked, todo, wrote, errs>>
Note(c, ch) ==
  /\ <<c, ch>> \in asked /\ (c \in table \/ Gone(c))
  /\ asked' = asked \ {<<c, ch>>}
  /\ ssub' = IF c \in table THEN ssub \cup {<<c, ch>>} ELSE ssub
  /\ UNCHANGED <<vars, table, todo, wrote, errs>>
Del(c) ==
  /\ Gone(c) /\ c \in table
  /\ table' = table \ {c}
  /\ ssub' = {p \in ssub : p[1] # c}
  /\ UNCHANGED <<vars, asked, todo, wrote, errs>>

Quiet == /\ asked = {}
         /\ \A c \in Clients : (st[c] = "joining" => c \in table) /\ (Gone(c) => c \notin table)
Settled == Quiet /\ Calm /\ UNCHANGED server

(* What broadcasts do. *)
Start(b, chs) == Begin(b, chs) /\ UNCHANGED server
Snap(b) ==
  /\ cast[b].ph = "open" /\ todo[b] = {} /\ wrote[b] = {} /\ errs[b] = {}
  /\ todo' = [todo EXCEPT ![b] = {c \in table : cast[b].chs = {} \/ \E ch \in cast[b].chs : <<c, ch>> \in ssub}]
  /\ UNCHANGED <<vars, table, ssub, asked, wrote, errs>>
Write(b, c) ==
  /\ c \in todo[b]
  /\ todo' = [todo EXCEPT ![b] = @ \ {c}]
  /\ \/ /\ ~Broken(c) /\ st[c] # "failing"
        /\ wrote' = [wrote EXCEPT ![b] = @ \cup {c}] /\ UNCHANGED errs
     \/ /\ Broken(c) \/ st[c] = "failing"
        /\ errs' = [errs EXCEPT ![b] = @ \cup {c}] /\ UNCHANGED wrote
  /\ UNCHANGED <<vars, table, ssub, asked>>
Return(b) ==
  /\ todo[b] = {} /\ (wrote[b] \cup errs[b] # {} \/ cast[b].may = {})
  /\ EndAnyhow(b) /\ UNCHANGED server
Arrive(b, c) ==
  /\ c \in wrote[b] \ cast[b].got /\ ~Gone(c)
  /\ cast' = [cast EXCEPT ![b].got = @ \cup {c}]
  /\ UNCHANGED <<st, sub, hit, server>>

ImplNext ==
  \/ ClientStep
  \/ \E c \in Clients : Add(c) \/ Del(c)
  \/ \E c \in Clients, ch \in Channels : Note(c, ch)
  \/ Settled
  \/ \E b \in Casts : Snap(b) \/ Return(b) \/ (\E chs \in {{}, Channels} \cup {{ch} : ch \in Channels} : Start(b, chs))
  \/ \E b \in Casts, c \in Clients : Write(b, c) \/ Arrive(b, c)

(* The promises. *)
Sound ==
  \A b \in Casts :
    /\ cast[b].got \subseteq cast[b].may
    /\ errs[b] \subseteq cast[b].may
    /\ wrote[b] \cap errs[b] = {}
Reported ==
  \A b \in Casts : cast[b].ph = "done" => cast[b].fails \subseteq errs[b]
Owed ==
  \A b \in Casts : cast[b].ph = "done" => cast[b].must \subseteq wrote[b]
Forgotten == Quiet => \A c \in Clients : Gone(c) => \A p \in ssub : p[1] # c
==============================================================================
