----------------------------- MODULE MC_S2REpoch -----------------------------
(* The assembly of epochs of the SBP to RTCM converter, with every short      *)
(* sequence of observation messages of two senders, a few times and any       *)
(* numbering; observations are told apart by their pseudorange.               *)
EXTENDS SbpToRtcm, TLC, Json
CONSTANTS Depth, Senders, Times, Sizes, Counts, Most, Legacy, Orderly, Emit
VARIABLES st, sent, lost, log
vars == <<st, sent, lost, log>>
Three == 3
Sats == <<1, 7, 3, 12, 9, 30, 22>>
Ob(k, i) == [P |-> L(10 * k + i), Li |-> ZeroL, L |-> ZeroL, D |-> 0, cn0 |-> 100, lock |-> 3, flags |-> 1, sat |-> Sats[(i % 7) + 1],
             code |-> IF i % 3 = 0 THEN 3 ELSE IF i % 3 = 1 THEN 0 ELSE 14]
Obs0(k, n) == [i \in 1..n |-> Ob(k, i)]
At(t) == <<2100 + (t \div 10), 1000 + 500 * (t % 10)>>
Ids(s) == {ToInt(s[i].P) : i \in 1..Len(s)}
IdsOf(m) == IF m.k = "msm" THEN Ids(m.obs) ELSE UNION {{ToInt(m.sats[i].a.P)} \cup Ids(m.sats[i].b) : i \in 1..Len(m.sats)}
Init == /\ st = [SetMode(Start, IF Legacy THEN 0 ELSE 5) EXCEPT !.leap = 18, !.fcn = [s \in 1..28 |-> 5]] /\ sent = <<>> /\ lost = {} /\ log = <<>>
Hear(snd, t, size, cnt, n) ==
  LET k == Len(log) + 1
      h == HearObs(st, snd, At(t), size, cnt, Obs0(k, n))
      gone == (Ids(st.buf) \cup Ids(Obs0(k, n))) \ (Ids(h.st.buf) \cup UNION {IdsOf(h.outs[i]) : i \in 1..Len(h.outs)})
  IN /\ Len(log) < Depth
     /\ st' = h.st
     /\ sent' = sent \o [i \in 1..Len(h.outs) |-> [m |-> h.outs[i], at |-> k]]
     /\ lost' = lost \cup gone
     /\ log' = Append(log, [s |-> snd, t |-> t, size |-> size, cnt |-> cnt, n |-> n])
(* orderly: mostly the next message of the epoch or the first of the next one *)
Usual(snd, t, size, cnt) ==
  IF log = <<>> THEN cnt = 1
  ELSE LET w == log[Len(log)] IN
    \/ w.cnt < w.size /\ snd = w.s /\ t = w.t /\ size = w.size /\ cnt = w.cnt + 1
    \/ w.cnt >= w.size /\ snd = w.s /\ t = w.t + 1 /\ cnt = 1
    \/ Len(log) % 4 = 3 /\ ((t \in {w.t, w.t + 1} /\ cnt = 1) \/ (t = w.t /\ cnt \in {w.cnt, w.cnt + 2}))
Recv == \E snd \in Senders, t \in Times, size \in Sizes, cnt \in Counts, n \in Most :
  /\ cnt <= size + 1
  /\ Orderly => Usual(snd, t, size, cnt)
  /\ Hear(snd, t, size, cnt, n)
Spec == Init /\ [][Recv]_vars
Whole == Emit /\ Len(log) = Depth => PrintT("GEN " \o ToJson(log))
---------------------------------------------------------------------------
Where(id) == log[id \div 10]
Sys(code) == ConsOf(code)
ObsOf(m) == IF m.k = "msm" THEN Range(m.obs) ELSE UNION {{m.sats[i].a} \cup Range(m.sats[i].b) : i \in 1..Len(m.sats)}
(* a message carries observations of its own system, time and station only *)
Pure == \A i \in 1..Len(sent) : LET m == sent[i].m IN
  \A o \in ObsOf(m) : LET w == Where(ToInt(o.P)) IN
    /\ Sys(o.code) = m.cons /\ Stn(w.s) = m.stn
    /\ m.tow = (CASE m.cons = "GLO" -> LET g == Wrap(At(w.t)[2] + 10782000) IN IF m.k = "legacy" THEN g % 86400000 ELSE g [] OTHER -> At(w.t)[2])
(* no observation is sent twice *)
Once == \A i, j \in 1..Len(sent) : i # j => IdsOf(sent[i].m) \cap IdsOf(sent[j].m) = {}
(* the messages of an epoch go out together, all but the last announcing more *)
Chained == \A i \in 1..Len(sent) :
  LET m == sent[i].m IN
  m.more <=> (i < Len(sent) /\ sent[i + 1].at = sent[i].at /\ sent[i + 1].m.cons # m.cons
              /\ {Where(x).t : x \in IdsOf(m)} = {Where(x).t : x \in IdsOf(sent[i + 1].m)} /\ Stn(Where(CHOOSE x \in IdsOf(m) : TRUE).s) = sent[i + 1].m.stn)
OneEpoch == \A o \in Range(st.buf) : LET w == Where(ToInt(o.P)) IN w.s = st.sender /\ At(w.t) = st.at /\ w.size = st.size
Room == Len(st.buf) <= MaxObs
(* an epoch whose messages are heard in order, with nothing in between, goes out whole with its last one *)
Clean(k, n) ==    \* messages k+1..k+n are such an epoch
  LET f == log[k + 1] IN
  /\ n = f.size /\ \A j \in 1..n : LET w == log[k + j] IN w.cnt = j /\ w.size = n /\ w.s = f.s /\ w.t = f.t
FoldLen(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
Sound == Len(log) > 0 =>
  LET n == log[Len(log)].size k == Len(log) - n IN
  (n >= 1 /\ k >= 0 /\ Clean(k, n) /\ (k = 0 \/ log[k].s # log[Len(log)].s \/ (TimeLess(At(log[k].t), At(log[Len(log)].t)) /\ \A j \in 1..k : log[j].t <= log[k].t))
     /\ FoldLen([j \in 1..n |-> log[k + j].n]) <= MaxObs)
  => /\ st.buf = <<>>
     /\ ~Legacy => \A j \in 1..n : Ids(Obs0(k + j, log[k + j].n)) \subseteq UNION {IdsOf(sent[i].m) : i \in {i \in 1..Len(sent) : sent[i].at = Len(log)}}
(* what is lost: of a time already left, out of order, or more than there is room for *)
LostRight == [][(lost' # lost /\ ~Legacy) => LET w == log'[Len(log')] IN
   \/ (st.sender = w.s /\ st.buf # <<>> /\ (TimeLess(At(w.t), st.at) \/ (At(w.t) = st.at /\ (w.size # st.size \/ w.cnt <= st.cnt))))
   \/ Len(st.buf) + w.n > MaxObs]_vars
=============================================================================
