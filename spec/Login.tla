------------------------------- MODULE Login --------------------------------
(* Who gets a shell.  A server reads its users file when it starts; a user    *)
(* has a name and may have a password and a public key.  A client offers      *)
(* credentials one after the other, and is let in by the first which is the   *)
(* user's.  A key counts only when the client proves to hold its private half.*)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Nothing,  \* the password which is none
          NoKey     \* the key which is none

VARIABLES users     \* those who may log in
vars == <<users>>

Init == users = {}

\* a server starts with a users file
Start(kind, listed) == users' = IF kind = "good" THEN listed ELSE {}

Lets(u, offer) ==
  \/ /\ offer.kind = "password"
     /\ u.password # Nothing
     /\ offer.value = u.password
  \/ /\ offer.kind = "key"
     /\ u.key # NoKey
     /\ offer.value = u.key
     /\ offer.by = u.key

May(name, offers) ==
  \E u \in users : u.name = name /\ \E i \in 1 .. Len(offers) : Lets(u, offers[i])

Attempt(name, offers, shell) ==
  /\ shell = May(name, offers)
  /\ UNCHANGED users
=============================================================================
