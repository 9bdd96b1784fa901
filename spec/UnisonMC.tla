------------------------------ MODULE UnisonMC -------------------------------
(* How it is done: the server keeps some samples ready, sends one at a time    *)
(* W before it is due, and answers who asks for its time; a player takes the   *)
(* middle of the time its question was under way for the moment it was         *)
(* answered, and then plays samples when they are due and drops those which    *)
(* are late.  Messages take from none to D.  That this is a behaviour of       *)
(* Unison, with clocks off by no more than half of D, shows as no deadlock:    *)
(* time goes on only once everything which was to happen at a moment did.      *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS D, W, Ready, Length, Gap, Horizon, Skews, Players

VARIABLES set, heard, said, turns, levels, node, wish, sound,
          now, net, skew, know, queue, buffer, song, pos, playing, left, plan, sent

U == INSTANCE Unison WITH Play <- Players, Look <- {}
uvars == <<set, heard, said, turns, levels, node, wish, sound>>
mvars == <<now, net, skew, know, queue, buffer, song, pos, playing, left, plan, sent>>

Err == (D + 1) \div 2 - 2   \* so that Off is half of D
None == -1000

Plans == {<<>>} \cup [1 .. 1 -> [at : {2, 5}, op : {"pause", "jump"}]]
         \cup {<<[at |-> 2, op |-> "pause"], [at |-> t, op |-> "resume"]>> : t \in {3, 6}}

Init ==
  /\ U!UnisonInit([tick |-> 1, rate |-> 1, wait |-> W, ahead |-> Ready + 1, gap |-> Gap])
  /\ now = 0 /\ sent = 0 /\ net = [p \in Players |-> [up |-> <<>>, down |-> <<>>]] /\ skew \in [Players -> Skews]
  /\ know = [p \in Players |-> None] /\ queue = [p \in Players |-> <<>>]
  /\ buffer = <<>> /\ song = 1 /\ pos = 0 /\ playing = TRUE /\ left = 0
  /\ plan \in {<<[at |-> 0, op |-> "resume"]>> \o q : q \in Plans}

Clock(p) == now + skew[p]

(* --------------------------- samples made ready --------------------------- *)
Make ==
  /\ Len(buffer) < Ready
  /\ IF left > 0 THEN /\ buffer' = Append(buffer, [id |-> 0, pos |-> 0]) /\ left' = left - 1
                      /\ UNCHANGED <<song, pos>>
     ELSE IF ~playing THEN buffer' = Append(buffer, [id |-> 0, pos |-> 0]) /\ UNCHANGED <<left, song, pos>>
     ELSE /\ buffer' = Append(buffer, [id |-> song, pos |-> pos])
          /\ IF pos + 1 = Length THEN pos' = 0 /\ song' = 3 - song /\ left' = Gap
                                 ELSE pos' = pos + 1 /\ UNCHANGED <<song, left>>
  /\ UNCHANGED <<uvars, now, net, skew, know, queue, playing, plan, sent>>

Asked ==
  /\ plan # <<>> /\ plan[1].at = now /\ Len(buffer) = Ready
  /\ LET o == plan[1].op IN
     /\ U!Ask(o, now, IF o = "jump" THEN 2 ELSE 0)
     /\ playing' = CASE o = "pause" -> FALSE [] o = "resume" -> TRUE [] OTHER -> playing
     /\ IF o = "jump" THEN song' = 2 /\ pos' = 0 /\ left' = Gap ELSE UNCHANGED <<song, pos, left>>
  /\ plan' = Tail(plan)
  /\ UNCHANGED <<now, net, skew, know, queue, buffer, sent>>

(* --------------------------------- sending -------------------------------- *)
Upward(p, m) == [net EXCEPT ![p].up = Append(@, m)]
ToAll(m) == [p \in Players |-> IF node[p].on THEN [net[p] EXCEPT !.down = Append(@, m)] ELSE net[p]]

Sends ==
  /\ sent = now /\ Len(buffer) = Ready /\ (plan # <<>> => plan[1].at > now)
  /\ LET b == Head(buffer)
         m == [k |-> "sample", t |-> now, due |-> now + W, id |-> b.id, pos |-> b.pos] IN
     /\ U!Send(now, now + W, IF b.id = 0 THEN <<>> ELSE <<[id |-> b.id, pos |-> b.pos, n |-> 1, due |-> now + W]>>)
     /\ net' = ToAll(m)
  /\ buffer' = Tail(buffer) /\ sent' = sent + 1
  /\ UNCHANGED <<now, skew, know, queue, song, pos, playing, left, plan>>

\* who joins asks for the time
Joins(p) ==
  /\ ~node[p].on
  /\ U!Join(p, now, now + 2 * D, Err, D)
  /\ net' = Upward(p, [k |-> "ask", t |-> now, cs |-> Clock(p)])
  /\ UNCHANGED <<now, skew, know, queue, buffer, song, pos, playing, left, plan, sent>>

Answered(p) ==
  /\ net[p].up # <<>>
  /\ LET m == Head(net[p].up) IN
     net' = [net EXCEPT ![p] = [up |-> Tail(@.up),
                                down |-> Append(@.down, [k |-> "time", t |-> now, cs |-> m.cs, sr |-> now])]]
  /\ UNCHANGED <<uvars, now, skew, know, queue, buffer, song, pos, playing, left, plan, sent>>

Arrives(p) ==
  /\ net[p].down # <<>>
  /\ LET m == Head(net[p].down) IN
     IF m.k = "time"
     THEN /\ know' = [know EXCEPT ![p] = ((m.sr - m.cs) + (m.sr - Clock(p))) \div 2]
          /\ UNCHANGED queue
     ELSE /\ queue' = [queue EXCEPT ![p] = Append(@, m)]
          /\ UNCHANGED know
  /\ net' = [net EXCEPT ![p].down = Tail(@)]
  /\ UNCHANGED <<uvars, now, skew, buffer, song, pos, playing, left, plan, sent>>

(* --------------------------------- playing -------------------------------- *)
Ripe(p) == know[p] # None /\ queue[p] # <<>> /\ queue[p][1].due <= Clock(p) + know[p]
Plays(p) ==
  /\ Ripe(p)
  /\ LET m == Head(queue[p]) IN
     IF m.due < Clock(p) + know[p] \/ m.id = 0 THEN UNCHANGED uvars   \* late, or silence
     ELSE U!Hear(p, now, now, now, m.id, m.pos, 1, 4)
  /\ queue' = [queue EXCEPT ![p] = Tail(@)]
  /\ UNCHANGED <<now, net, skew, know, buffer, song, pos, playing, left, plan, sent>>

(* ---------------------------------- time ---------------------------------- *)
Loud == levels = <<>> /\ U!Level(now, 4) /\ UNCHANGED mvars
Settled ==
  /\ levels # <<>>
  /\ sent = now + 1 /\ Len(buffer) = Ready /\ (plan # <<>> => plan[1].at > now)
  /\ \A p \in Players : ~Ripe(p) /\ \A q \in {net[p].up, net[p].down} : q # <<>> => q[1].t + D > now
Tock ==
  /\ Settled /\ now < Horizon /\ now' = now + 1
  /\ UNCHANGED <<uvars, net, skew, know, queue, buffer, song, pos, playing, left, plan, sent>>
\* all joined in good time hear all that was due
Whole == \A p \in Players : node[p].on /\ node[p].from # None =>
           U!Missing(p, U!Owed(p), now - U!Off(p)) = 0
Ends == Settled /\ now = Horizon /\ U!Over(now) /\ Whole /\ UNCHANGED mvars

Next ==
  \/ Loud \/ Make \/ Asked \/ Sends \/ Tock \/ Ends
  \/ \E p \in Players : Joins(p) \/ Answered(p) \/ Arrives(p) \/ Plays(p)

\* as far as clocks can agree
Agree == \A p \in Players : know[p] # None => U!Abs(skew[p] + know[p]) <= (D + 1) \div 2
==============================================================================
