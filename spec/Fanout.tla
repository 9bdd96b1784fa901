-------------------------------- MODULE Fanout --------------------------------
(* Who may and who must receive a broadcast, as clients come, subscribe, go,  *)
(* fail and misbehave.  What a client asked for takes effect at some later    *)
(* moment, so the state holds what is possible and what is certain; Calm says *)
(* that everything under way has taken effect.                                *)
EXTENDS Integers, FiniteSets

CONSTANTS Clients, Channels, Casts

VARIABLES st,   \* of a client: "out", "joining", "in", "leaving", "gone", "bad" (anything
                \* may become of it), "failing" and "failed" (writes to it fail)
          sub,  \* its subscriptions: 0 no, 1 asked for, 2 in force
          hit,  \* a broadcast may have found out that writes to it fail
          cast  \* the broadcasts: [ph, chs, may, must, got, fails, chance]

vars == <<st, sub, hit, cast>>

NoCast == [ph |-> "no", chs |-> {}, may |-> {}, must |-> {}, got |-> {}, fails |-> {}]

Init ==
  /\ st = [c \in Clients |-> "out"]
  /\ sub = [c \in Clients |-> [ch \in Channels |-> 0]]
  /\ hit = [c \in Clients |-> FALSE]
  /\ cast = [b \in Casts |-> NoCast]

Possible(s, u, c, chs) ==
  /\ s[c] \notin {"out", "gone"}
  /\ chs = {} \/ \E ch \in chs : u[c][ch] > 0
Certain(s, u, c, chs) ==
  /\ s[c] \in {"in", "failed"}
  /\ chs = {} \/ \E ch \in chs : u[c][ch] = 2

(* Membership became s and subscriptions u; the clients in off are no longer owed anything. *)
Become(s, u, off) ==
  LET open(b) == cast[b].ph = "open"
      may(b) == IF open(b) THEN cast[b].may \cup {c \in Clients : Possible(s, u, c, cast[b].chs)}
                           ELSE cast[b].may IN
  /\ st' = s /\ sub' = u
  /\ cast' = [b \in Casts |-> [cast[b] EXCEPT !.may = may(b), !.must = @ \ off, !.fails = @ \ off]]
  /\ hit' = [c \in Clients |-> hit[c] \/ (s[c] \in {"failing", "failed"} /\ \E b \in Casts : open(b) /\ c \in may(b))]

Join(c) == st[c] = "out" /\ Become([st EXCEPT ![c] = "joining"], sub, {})
Subscribe(c, ch) ==
  /\ st[c] # "out"
  /\ Become(st, [sub EXCEPT ![c][ch] = IF @ = 0 THEN 1 ELSE @], {})
Leave(c) == st[c] # "out" /\ Become([st EXCEPT ![c] = "leaving"], sub, {c})
Bad(c) == Become([st EXCEPT ![c] = "bad"], [sub EXCEPT ![c] = [ch \in Channels |-> 1]], {c})
Failing(c) == Become([st EXCEPT ![c] = IF @ = "in" THEN "failing" ELSE "bad"], sub, {c})
Fail(c) == Become([st EXCEPT ![c] = IF @ = "failing" THEN "failed" ELSE @], sub, {c})
Calm ==
  Become([c \in Clients |-> CASE st[c] = "joining" -> "in" [] st[c] = "leaving" -> "gone" [] OTHER -> st[c]],
         [c \in Clients |-> [ch \in Channels |->
            IF sub[c][ch] = 1 /\ st[c] \in {"joining", "in"} THEN 2 ELSE sub[c][ch]]], {})

Begin(b, chs) ==
  LET may == {c \in Clients : Possible(st, sub, c, chs)}
      sure == {c \in Clients : Certain(st, sub, c, chs)} IN
  /\ cast[b].ph = "no"
  /\ cast' = [cast EXCEPT ![b] = [ph |-> "open", chs |-> chs, may |-> may, got |-> {},
                                  must |-> {c \in sure : st[c] = "in"},
                                  fails |-> {c \in sure : st[c] = "failed" /\ ~hit[c]}]]
  /\ hit' = [c \in Clients |-> hit[c] \/ (c \in may /\ st[c] \in {"failing", "failed"})]
  /\ UNCHANGED <<st, sub>>

(* Unaltered, by someone who may receive it, at most once. *)
Receive(c, b) ==
  /\ cast[b].ph # "no"
  /\ c \in cast[b].may \ cast[b].got
  /\ cast' = [cast EXCEPT ![b].got = @ \cup {c}]
  /\ UNCHANGED <<st, sub, hit>>

(* The call reports the clients in errs: all that certainly failed, none that was fine. *)
End(b, errs) ==
  /\ cast[b].ph = "open"
  /\ cast[b].fails \subseteq errs
  /\ errs \subseteq {c \in cast[b].may : st[c] \in {"leaving", "gone", "bad", "failing", "failed"}}
  /\ cast' = [cast EXCEPT ![b].ph = "done"]
  /\ UNCHANGED <<st, sub, hit>>

(* The call reported something of no interest. *)
EndAnyhow(b) ==
  /\ cast[b].ph = "open"
  /\ cast' = [cast EXCEPT ![b].ph = "done"]
  /\ UNCHANGED <<st, sub, hit>>

Delivered(b) == cast[b].must \subseteq cast[b].got

Next ==
  \/ \E c \in Clients : Join(c) \/ Leave(c) \/ Bad(c) \/ Failing(c) \/ Fail(c)
  \/ \E c \in Clients, ch \in Channels : Subscribe(c, ch)
  \/ Calm
  \/ \E b \in Casts, chs \in SUBSET Channels : Begin(b, chs)
  \/ \E b \in Casts, c \in Clients : Receive(c, b)
  \/ \E b \in Casts, e \in SUBSET Clients : End(b, e)
  \/ \E b \in Casts : EndAnyhow(b)

TypeOK ==
  /\ \A c \in Clients : \A ch \in Channels : sub[c][ch] \in 0 .. 2
  /\ \A b \in Casts : cast[b].must \subseteq cast[b].may /\ cast[b].got \subseteq cast[b].may
                      /\ cast[b].fails \subseteq cast[b].may
==============================================================================
