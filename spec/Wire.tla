--------------------------------- MODULE Wire ---------------------------------
(* What a reader of a connection hands on: every message sent completely and  *)
(* before any damage, once each, and in the order sent as far as there is an  *)
(* order; of what follows a damaged frame at most what can be made of it.     *)
EXTENDS Integers, FiniteSets

CONSTANTS Msgs

VARIABLES ph,      \* of a message: "no", "open" (being sent), "sent"
          before,  \* of a message: those sent completely before it
          got,     \* the messages handed on
          damaged, \* the stream has been damaged
          refs     \* the numbers of the messages made of the damaged part

vars == <<ph, before, got, damaged, refs>>

Init ==
  /\ ph = [m \in Msgs |-> "no"] /\ before = [m \in Msgs |-> {}]
  /\ got = {} /\ damaged = FALSE /\ refs = {}

Begin(m) ==
  /\ ph[m] = "no" /\ ~damaged
  /\ ph' = [ph EXCEPT ![m] = "open"]
  /\ before' = [before EXCEPT ![m] = {x \in Msgs : ph[x] = "sent"}]
  /\ UNCHANGED <<got, damaged, refs>>

End(m) ==
  /\ ph[m] = "open"
  /\ ph' = [ph EXCEPT ![m] = "sent"]
  /\ UNCHANGED <<before, got, damaged, refs>>

Damage == damaged' = TRUE /\ UNCHANGED <<ph, before, got, refs>>

(* ordered: the messages for which the reader keeps the order *)
Hand(m, ordered) ==
  /\ ph[m] # "no" /\ m \notin got
  /\ m \in ordered => before[m] \cap ordered \subseteq got
  /\ got' = got \cup {m}
  /\ UNCHANGED <<ph, before, damaged, refs>>

HandRef(i) ==
  /\ damaged /\ i \notin refs
  /\ refs' = refs \cup {i}
  /\ UNCHANGED <<ph, before, got, damaged>>

Complete == \A m \in Msgs : ph[m] = "sent" => m \in got
==============================================================================
