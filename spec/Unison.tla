-------------------------------- MODULE Unison --------------------------------
(* A server, its operator, players and displays, each with a clock of its own, *)
(* in a network that takes its time.  What the server sends is due at some     *)
(* moment; players make it heard and displays show it at that moment, as far   *)
(* as their clocks can agree with the server's, and what an operator asks for  *)
(* is heard once what had been sent before is over.                            *)
(* Times are in microseconds of the server's clock.                            *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Play,  \* players
          Look   \* displays

VARIABLES set,     \* [tick, rate, wait, ahead, gap]: of a sample, samples per second, from sending
                   \* to playing, at most sent ahead, of the break between songs
          heard,   \* what was sent: stretches [id, pos, n, due] of song id from its sample pos on
          said,    \* songs announced: [at, due, id]
          turns,   \* changes between playing and paused announced: [due, on]
          levels,  \* volumes set: [at, q], in quarters, in this order
          node,    \* who joined: [at, by, err, lag, from, upto]
          wish,    \* what the operator asked for last: [op, at, id], and since when sound is asked for
          sound

vars == <<set, heard, said, turns, levels, node, wish, sound>>

None == -1
UnisonInit(s) ==
  /\ set = s /\ heard = {} /\ said = {} /\ turns = {} /\ levels = <<>>
  /\ node = [p \in Play \cup Look |-> [on |-> FALSE]]
  /\ wish = [op |-> "none", at |-> 0, id |-> 0] /\ sound = None

Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Holds(p) == IF p THEN TRUE ELSE FALSE
Tick == set.tick
End(s) == s.due + s.n * Tick

\* how much of stretches S lies between a and b
RECURSIVE Within(_, _, _)
Within(S, a, b) ==
  IF S = {} THEN 0
  ELSE LET s == CHOOSE s \in S : TRUE
           lo == Max(s.due, a)
           hi == Min(End(s), b)
       IN (IF lo < hi THEN hi - lo ELSE 0) + Within(S \ {s}, a, b)

(* ------------------------------- the server ------------------------------- *)
(* A piece continues the stretch before it, or starts one. *)
Extends(s, p) == s.id = p.id /\ s.pos + s.n = p.pos /\ Abs(End(s) - p.due) < Tick
Add(S, p) ==
  IF \E s \in S : Extends(s, p)
  THEN LET s == CHOOSE s \in S : Extends(s, p) IN (S \ {s}) \cup {[s EXCEPT !.n = @ + p.n]}
  ELSE S \cup {p}
RECURSIVE AddAll(_, _)
AddAll(S, ps) == IF ps = <<>> THEN S ELSE AddAll(Add(S, Head(ps)), Tail(ps))

Send(at, start, ps) ==
  /\ heard' = AddAll(heard, ps)
  \* who was ready gets all from here on
  /\ node' = [p \in DOMAIN node |-> IF node[p].on /\ node[p].by <= at /\ node[p].from = None
                               THEN [node[p] EXCEPT !.from = start] ELSE node[p]]
  /\ UNCHANGED <<set, said, turns, levels, wish, sound>>

Announce(at, due, id) == said' = said \cup {[at |-> at, due |-> due, id |-> id]} /\ UNCHANGED <<set, heard, turns, levels, node, wish, sound>>
Turn(due, on) == turns' = turns \cup {[due |-> due, on |-> on]} /\ UNCHANGED <<set, heard, said, levels, node, wish, sound>>
Level(at, q) == levels' = Append(levels, [at |-> at, q |-> q]) /\ UNCHANGED <<set, heard, said, turns, node, wish, sound>>

(* ------------------------------ the operator ------------------------------ *)
Late == set.wait + set.ahead   \* what is asked for is heard by then
(* When something else is asked for, at y, the last wish has come true. *)
Quiet(a, b) == \A s \in heard : End(s) <= a \/ s.due >= b
Sounding(a, b) ==   \* but for breaks between songs
  a + set.gap < b =>
    /\ \E s \in heard : s.due <= a + set.gap /\ End(s) > a
    /\ \A s \in heard :
         (a < End(s) /\ End(s) + set.gap + 2 * Tick < b) =>
            \E z \in heard : z # s /\ z.due <= End(s) + set.gap + 2 * Tick /\ End(z) > End(s)
Jumped(id, a, b) == \E s \in heard : s.id = id /\ s.pos = 0 /\ a <= s.due /\ s.due <= b
CameTrue(y) ==
  /\ wish.op = "pause" => Quiet(wish.at + Late, y)
  /\ sound # None => Sounding(sound + Late + set.gap, y)
  /\ (wish.op = "jump" /\ sound # None /\ wish.at + Late + set.gap <= y) => Jumped(wish.id, wish.at, wish.at + Late + set.gap)

Ask(op, at, id) ==
  /\ Holds(CameTrue(at))
  /\ wish' = [op |-> op, at |-> at, id |-> id]
  /\ sound' = IF op = "pause" THEN None ELSE IF op = "resume" THEN at ELSE sound
  /\ UNCHANGED <<set, heard, said, turns, levels, node>>

(* ------------------------- players and displays --------------------------- *)
Join(p, at, by, err, lag) ==
  /\ node' = [node EXCEPT ![p] = [on |-> TRUE, at |-> at, by |-> by, err |-> err, lag |-> lag,
                                  from |-> None, upto |-> 0]]
  /\ UNCHANGED <<set, heard, said, turns, levels, wish, sound>>

Off(p) == node[p].err + 2 * Tick     \* how far off it may be

(* Samples due from a to before b which p was to play. *)
Missing(p, a, b) == IF node[p].from = None THEN 0 ELSE Within({s \in heard : End(s) > a /\ s.due < b}, a, b)
Owed(p) == Max(node[p].from, node[p].upto)

(* p plays n samples of song id, from pos on, the first of them at a time:     *)
(* that is when it is due, nothing is played twice, and nothing was left out   *)
(* but what a clock corrected after a break skips.                             *)
DueFor(p, at, id, pos, n) ==
  {s \in heard : s.id = id /\ s.pos <= pos /\ pos + n <= s.pos + s.n
                 /\ Abs(s.due + (pos - s.pos) * Tick - at) <= Off(p)}
\* all the time from w to last the volume was q, or it was about to be changed
InForce(p, q, w, last) ==
  \E i \in 1 .. Len(levels) : \E j \in i .. Len(levels) :
    /\ \A k \in i .. j : levels[k].q = q
    /\ levels[i].at <= w
    /\ j < Len(levels) => levels[j + 1].at >= last - node[p].lag
Hear(p, w, last, at, id, pos, n, q) ==
  /\ node[p].on
  /\ \E s \in DueFor(p, at, id, pos, n) :
       LET d == s.due + (pos - s.pos) * Tick
           gone == Missing(p, Owed(p), d) IN
       /\ d >= node[p].upto
       /\ gone = 0 \/ (gone <= 2 * Off(p) /\ node[p].upto <= s.due)
       /\ node' = [node EXCEPT ![p].upto = d + n * Tick]
  /\ Holds(InForce(p, q, w, last))
  /\ UNCHANGED <<set, heard, said, turns, levels, wish, sound>>

(* A display, at a time, shows the song which began last, how far it has been  *)
(* played, whether it is paused, and the volume; but when it joins it is told   *)
(* of the newest song only, which may be one still to come.                    *)
Refresh == 1000000   \* a new picture by then
Newest(S) == {s \in S : \A z \in S : z.due <= s.due}
Started(at) == {s \in said : s.due <= at}
SongAt(p, at, song) ==
  \/ Started(at) = {} /\ song = 0
  \/ \E s \in Newest(Started(at)) :
       \/ song = s.id
       \/ song = 0 /\ \E z \in said : z.due > s.due /\ z.at <= node[p].by
SecAt(at, sec) == \A s \in heard : (s.due <= at /\ at < End(s)) => sec = (s.pos + (at - s.due) \div Tick) \div set.rate
TurnAt(at, on) == LET S == {s \in turns : s.due <= at} IN S # {} => \E s \in Newest(S) : s.on = on
Show(p, at, song, sec, on, vol) ==
  /\ LET n == node[p]
         around == {at - Off(p) - 3000, at, at + Off(p)}
     IN Holds((n.on /\ n.from # None /\ at > n.from + Off(p)) =>
          /\ \E x \in around : SongAt(p, x, song)
          /\ song # 0 => \E x \in around : SecAt(x, sec)
          /\ \E x \in around : TurnAt(x, on)
          /\ \E q \in {1, 2, 4} : vol = q * 2500 /\ InForce(p, q, at - 3000, at))
  /\ at - Max(node[p].by, node[p].upto) <= Refresh
  /\ node' = [node EXCEPT ![p].upto = at]
  /\ UNCHANGED <<set, heard, said, turns, levels, wish, sound>>

(* In the end all that was due has been heard, and the operator's wish is met. *)
Slack == 600 * Tick   \* a player's buffer
Over(at) ==
  /\ Holds(\A p \in Play : node[p].on /\ node[p].from # None =>
       Missing(p, Owed(p), at - Slack - Off(p)) <= 2 * Off(p))
  /\ \A p \in Look : node[p].on => at - Max(node[p].by, node[p].upto) <= Refresh
  /\ Holds(CameTrue(at))
  /\ UNCHANGED vars
===============================================================================
