---------------------------- MODULE StreamTrace ----------------------------
(* Checks recorded streams of the real server against Stream.  Samples,       *)
(* announcements and requests are merged by stream index; a request was made  *)
(* somewhere in [lo, hi], TLC finds where.                                    *)
EXTENDS Stream, TLC, Json, IOUtils, FiniteSets

Traces == ndJsonDeserialize(IOEnv.TRACES)
N == Len(Traces)

VARIABLES t, si, part, ai, gi, ci, ri, got
tvars == <<vars, t, si, part, ai, gi, ci, ri, got>>

T == Traces[t]

ASSUME \A i \in 1 .. 2 * N : TLCSet(i, 0)

Init ==
  \E i \in 1 .. N :
    /\ t = i
    /\ StreamInit(Traces[i].files, Traces[i].nb, Traces[i].init)
    /\ si = 1 /\ part = 0 /\ ai = 1 /\ gi = 1 /\ ci = 1 /\ ri = 1 /\ got = 0

Keep(v) == UNCHANGED v

(* A request commutes with the samples emitted before it matters, so it is    *)
(* enough to let it happen where a decision may depend on it, or at the end   *)
(* of its window.                                                             *)
Continues ==
  /\ si <= Len(T.segs)
  /\ st = "song" /\ playing
  /\ T.segs[si].id = cur /\ T.segs[si].off + part = off
Matters ==
  \/ st \in {"between", "chosen"}
  \/ x = T.cmds[ci].hi
  \/ gi <= Len(T.togs) /\ T.togs[gi].at = x
  \/ st = "song" /\ ~Continues

Request ==
  /\ ci <= Len(T.cmds)
  /\ Matters
  /\ LET c == T.cmds[ci]
         by == c.hi + Slack IN
     /\ c.lo <= x /\ x <= c.hi
     /\ \/ c.op = "add" /\ Add(c.f)
        \/ c.op = "insert" /\ Insert(c.f, c.p)
        \/ c.op = "remove" /\ Remove(c.p)
        \/ c.op = "jump" /\ Jump(c.p, by)
        \/ c.op = "play" /\ SetPlaying(TRUE, by)
        \/ c.op = "pause" /\ SetPlaying(FALSE, by)
  /\ ci' = ci + 1
  /\ UNCHANGED <<t, si, part, ai, gi, ri, got>>

Announced ==
  /\ ai <= Len(T.anns)
  /\ LET a == T.anns[ai] IN a.at = x /\ a.same /\ StartSong(a.f, a.len)
  /\ ai' = ai + 1
  /\ UNCHANGED <<t, si, part, gi, ci, ri, got>>

Toggled ==
  /\ gi <= Len(T.togs)
  /\ LET g == T.togs[gi] IN g.at = x /\ Toggle(g.p)
  /\ gi' = gi + 1
  /\ UNCHANGED <<t, si, part, ai, ci, ri, got>>

Decided == Decide /\ UNCHANGED <<t, si, part, ai, gi, ci, ri, got>>

(* Consume k samples of the current run; the record cuts runs wherever an    *)
(* announcement or the window of a request begins or ends.                    *)
Consume(k) ==
  /\ IF part + k = T.segs[si].n THEN si' = si + 1 /\ part' = 0
                                ELSE si' = si /\ part' = part + k
  /\ UNCHANGED <<t, ai, gi, ci, ri, got>>

Sampled ==
  /\ si <= Len(T.segs)
  /\ LET s == T.segs[si]
         n == s.n - part
         nextAnn == IF ai <= Len(T.anns) THEN T.anns[ai].at - nb - x ELSE n
     IN \/ s.id >= 1 /\ Music(s.id, s.off + part, n) /\ Consume(n)
        \/ /\ s.id = -1
           /\ \E k \in {n, rest, idleBy - x, cutBy - x, nextAnn} \cap (1 .. n) :
                Silence(k) /\ Consume(k)

(* The consumer's reads: each reports how many samples were read before it.   *)
Read ==
  /\ si > Len(T.segs) /\ ri <= Len(T.reads)
  /\ T.reads[ri].idx = got
  /\ got' = got + T.reads[ri].n
  /\ ri' = ri + 1
  /\ UNCHANGED <<vars, t, si, part, ai, gi, ci>>

Complete ==
  /\ si > Len(T.segs) /\ ai > Len(T.anns) /\ gi > Len(T.togs) /\ ri > Len(T.reads)
  /\ got = x

Progress == si + ai + gi + ci + ri

Note == /\ IF Complete THEN TLCSet(t, 1) ELSE TRUE
        /\ IF Progress > TLCGet(N + t) THEN TLCSet(N + t, Progress) ELSE TRUE

Next == Note /\ TLCGet(t) = 0 /\ (Request \/ Announced \/ Toggled \/ Decided \/ Sampled \/ Read)

Rejected == {i \in 1 .. N : TLCGet(i) = 0}
Accepted ==
  /\ \A i \in Rejected : PrintT(<<"REJECTED", i, TLCGet(N + i)>>)
  /\ PrintT(<<"ACCEPTED", N - Cardinality(Rejected)>>)
  /\ Rejected = {}
==============================================================================
