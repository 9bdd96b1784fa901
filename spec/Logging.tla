------------------------------ MODULE Logging -------------------------------
(* What is logged where.  A component's messages are cut off below the level  *)
(* of its own flag, or below that of the default flag, or below info.         *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES cut,    \* component -> level, for those with a flag of their own
          default \* the level of the others
vars == <<cut, default>>

Trace == 0  Debug == 1  Info == 2  Warn == 3  Error == 4  Fatal == 5  Off == 6

\* names are in lower case; what names no level switches off
Named(name) ==
  CASE name \in {"trace", "trc"} -> Trace
    [] name \in {"debug", "dbg"} -> Debug
    [] name \in {"info", "inf"} -> Info
    [] name \in {"warn", "wrn"} -> Warn
    [] name \in {"error", "err"} -> Error
    [] name \in {"fatal", "ftl"} -> Fatal
    [] OTHER -> Off

Init == cut = <<>> /\ default = Info

\* a command starts with flags: of whom (nobody: the default) and the name of the level
Start(given) ==
  LET own == {g \in given : g.of # ""}
      all == {g \in given : g.of = ""}
  IN /\ cut' = [c \in {g.of : g \in own} |-> Named((CHOOSE g \in own : g.of = c).level)]
     /\ default' = IF all = {} THEN Info ELSE Named((CHOOSE g \in all : TRUE).level)

Cutoff(c) == IF c \in DOMAIN cut THEN cut[c] ELSE default

\* a message of level v; out and err: how often each output has it
Say(by, v, out, err) ==
  /\ LET n == IF v >= Cutoff(by) THEN 1 ELSE 0 IN
     /\ out = (IF v < Warn THEN n ELSE 0)
     /\ err = (IF v < Warn THEN 0 ELSE n)
  /\ UNCHANGED vars
=============================================================================
