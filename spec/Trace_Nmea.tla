----------------------------- MODULE Trace_Nmea -----------------------------
(* Histories of the SBP to NMEA converter: what it was given, and the sentences *)
(* it sent.  Judged: when they come ("timing"), what they say of the solution   *)
(* ("text"), or what they say of the satellites ("sats").                       *)
EXTENDS NmeaText, TraceBase
CONSTANT What
VARIABLES st, held, due, cur
vars == <<st, held, due, cur, l>>
InParts == {GSA, GSV}
Nothing == [k |-> -1, n |-> 0]
Init == l = 1 /\ st = NmeaInitial("G") /\ held = <<1, 0>> /\ due = <<>> /\ cur = Nothing
(* before anything else happens, what was due has come *)
Finished ==
  /\ What = "timing" => Same("sentences that did not come", <<>>, due)
  /\ (What = "sats" /\ cur.k \in InParts) => Same(<<"parts of sentence", cur.k>>, PartCount(st, cur.k), cur.n)
Given(s, silent) == LET ks == IF silent THEN {} ELSE DueNow(s) IN
  st' = Sent(s, ks) /\ due' = InOrder(ks, 0) /\ cur' = Nothing /\ UNCHANGED held
Setting(s) == Finished /\ st' = s /\ due' = <<>> /\ cur' = Nothing /\ UNCHANGED held
Start == IsEvent("Init") /\ Finished /\ st' = NmeaInitial(Ev.mode) /\ held' = <<1, 0>> /\ due' = <<>> /\ cur' = Nothing
Freq == IsEvent("Freq") /\ Setting([st EXCEPT !.period = (1000 * Ev.den) \div Ev.num])
Rate == IsEvent("Rate") /\ Setting([st EXCEPT !.rate[Ev.id] = Ev.n])
Base == IsEvent("Base") /\ Setting([st EXCEPT !.base = Ev.n])
Cog == IsEvent("Cog") /\ Setting([st EXCEPT !.cog = Ev.mm])
Still == IsEvent("Still") /\ Setting([st EXCEPT !.still = Ev.mm])
Message == IsEvent("Msg") /\ Finished /\ Given(Take(st, Ev.id, Ev.v), Discarded(Ev.id, Ev.v))
Obs == /\ IsEvent("Obs") /\ Finished
       /\ IF Follows(st, Ev.t, Ev.seq) THEN Given(TakeObs(st, Ev.t, Ev.seq, Ev.o), FALSE) ELSE Given(st, TRUE)
Out ==
  /\ IsEvent("Out")
  /\ LET fs == BodyFields(Ev.b)  k == Tag(fs[1])
         again == k = cur.k /\ k \in InParts
         part == IF again THEN cur.n + 1 ELSE 1
         judged == What # "timing" /\ (IF k \in InParts THEN What = "sats" ELSE What = "text")
     IN /\ (k = -1) => Holds(<<"a sentence", fs[1]>>, FALSE)
        /\ (What = "timing" /\ ~again) => Same("next sentence (-1: none)", IF due = <<>> THEN -1 ELSE Head(due), k)
        /\ judged => Holds("a whole sentence", WholeSentence(Ev.b))
        /\ (judged /\ k \in InParts) => Holds(<<"more parts of sentence", k, "than", PartCount(st, k)>>, part <= PartCount(st, k))
        /\ judged => MatchSentence(k, Says(st, held, k, part), fs)
        /\ held' = HeldAfter(st, held, k)
        /\ due' = IF again \/ due = <<>> THEN due ELSE Tail(due)
        /\ cur' = [k |-> k, n |-> part]
        /\ UNCHANGED st
End == IsEvent("End") /\ Setting(st)
TraceSpec == Init /\ [][Start \/ Freq \/ Rate \/ Base \/ Cog \/ Still \/ Message \/ Obs \/ Out \/ End]_vars
=============================================================================
