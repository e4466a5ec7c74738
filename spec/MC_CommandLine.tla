--------------------------- MODULE MC_CommandLine ---------------------------
(***************************************************************************)
(* What a user means, one option after the other, in the ways it can be    *)
(* written.  Reading the written command line gives back what was meant,   *)
(* and the histories are the command lines the programs are run with.      *)
(***************************************************************************)
EXTENDS CommandLine, TLC, Json
CONSTANTS Tool, Max, Numbers, Emit
VARIABLES meant, args, done
vars == <<meant, args, done>>
RECURSIVE HexDigits(_, _)
HexDigit(v, up) == IF v < 10 THEN 48 + v ELSE (IF up THEN 55 ELSE 87) + v
HexDigits(n, up) == IF n < 16 THEN <<HexDigit(n, up)>> ELSE HexDigits(n \div 16, up) \o <<HexDigit(n % 16, up)>>
Written(n, how) == CASE how = "dec" -> Digits(n) [] how = "hex" -> <<48, 120>> \o HexDigits(n, FALSE) [] how = "HEX" -> <<48, 88>> \o HexDigits(n, TRUE)
Dashed(w) == <<CH.dash, CH.dash>> \o w
(* the words for an option with an argument *)
Worded(letter, word, arg, form) ==
  CASE form = "apart" -> <<<<CH.dash, letter>>, arg>>
    [] form = "joined" -> <<<<CH.dash, letter>> \o arg>>
    [] form = "equals" -> <<<<CH.dash, letter, CH.eq>> \o arg>>
    [] form = "word" -> <<Dashed(word), arg>>
    [] form = "word=" -> <<Dashed(word) \o <<CH.eq>> \o arg>>
RECURSIVE Joined(_)
Joined(ns) == IF Len(ns) = 1 THEN Digits(ns[1]) ELSE Digits(ns[1]) \o <<CH.colon>> \o Joined(Tail(ns))
Weeks == {1875, 1876, 2000, 2023, 2260}
Tows == {0, 1, 86400, 259200, 604799}
Dates == {<<2015, 12, 19, 23>>, <<2015, 12, 20, 0>>, <<2016, 2, 29, 5>>, <<2016, 12, 31, 23>>, <<2017, 1, 1, 1>>, <<2018, 3, 1, 1>>, <<2020, 2, 29, 23>>,
          <<2020, 12, 31, 23>>, <<2021, 10, 9, 23>>, <<2024, 7, 4, 12>>, <<2030, 11, 30, 17>>}
(* the pieces a user may write: what is meant, and the words *)
SenderPieces == {<<<<"s", n>>, Worded(Letter.s, SenderIdWord, Written(n, how), form)>> : n \in Numbers, how \in {"dec", "hex", "HEX"}, form \in {"apart", "joined", "word", "word="}}
Short(l) == <<<<CH.dash, l>>>>
TimePieces ==
  {<<<<"w", <<wn, tow>>>>, Worded(Letter.w, <<>>, Joined(<<wn, tow>>) \o tail, form)>> : wn \in Weeks, tow \in Tows, tail \in {<<>>, <<46, 53>>, <<46, 48, 48>>}, form \in {"apart", "joined", "equals"}}
  \cup {<<<<"d", d>>, Worded(Letter.d, <<>>, Joined(d), form)>> : d \in Dates, form \in {"apart", "joined", "equals"}}
BadTimes == {<<<<"bad">>, Worded(l, <<>>, a, "apart")>> : l \in {Letter.w}, a \in {Digits(2000), Joined(<<2000, 604800>>), Digits(2000) \o <<CH.colon>>, <<120>>}}
  \cup {<<<<"bad">>, Worded(Letter.d, <<>>, a, "joined")>> : a \in {Joined(<<2020, 1, 1>>), Digits(2020), Joined(<<2020, 1>>)}}
Masks == {"G", "R", "E", "C", "J", "S"}
Kinds ==
  CASE Tool = "ubx" -> {SenderPieces, {<<<<"hnr">>, <<Dashed(HnrWord)>>>>}, {<<<<"h">>, Short(Letter.h)>>}}
    [] Tool = "xcom" -> {SenderPieces, {<<<<"h">>, Short(Letter.h)>>, <<<<"h">>, <<Dashed(HelpWord)>>>>}}
    [] Tool = "rtcm" -> {{p \in TimePieces : p[1][1] = "d"}, {p \in TimePieces : p[1][1] = "w"}, {p \in TimePieces : p[1] \in {<<"w", <<1875, 604799>>>>, <<"d", <<2015, 12, 19, 23>>>>}}, BadTimes,
                         {<<<<"o">>, Short(Letter.o)>>, <<<<"now">>, Short(Letter.s)>>},
                         {<<<<m>>, Short(Letter[m])>> : m \in Masks \cup {"t", "h"}},
                         {<<<<"masks", m, n>>, <<<<CH.dash, Letter[m], Letter[n]>>>>>> : m \in Masks, n \in Masks}}
Pieces == UNION Kinds
Init == meant = <<>> /\ args = <<>> /\ done = FALSE
Add == /\ ~done /\ Len(meant) < Max
       /\ \E p \in (IF Emit THEN {RandomElement(RandomElement(Kinds))} ELSE Pieces) : meant' = Append(meant, p[1]) /\ args' = args \o p[2]
       /\ UNCHANGED done
Finish == /\ ~done /\ done' = TRUE /\ UNCHANGED <<meant, args>>
          /\ Emit => PrintT("GEN " \o ToJson([meant |-> meant, args |-> args]))
Spec == Init /\ [][Add \/ Finish]_vars
---------------------------------------------------------------------------
Clock == 1700000000
Ids == SelectSeq(meant, LAMBDA m : m[1] = "s")
Meant(k) == \E i \in 1..Len(meant) : meant[i][1] = k
MaskOf(m) == CASE m = "G" -> 0 [] m = "S" -> 1 [] m = "R" -> 2 [] m = "C" -> 3 [] m = "J" -> 4 [] m = "E" -> 5
Fatal == {i \in 1..Len(meant) : meant[i][1] \in {"bad", "t", "h"}}
Before == IF Fatal = {} THEN Len(meant) ELSE (CHOOSE i \in Fatal : \A j \in Fatal : i <= j) - 1
Times == SelectSeq(SubSeq(meant, 1, Before), LAMBDA m : m[1] \in {"w", "d", "now"})
LastTime == IF Times = <<>> THEN <<>>
            ELSE LET t == Times[Len(Times)] IN
                 CASE t[1] = "w" -> t[2] [] t[1] = "d" -> OfDate(t[2][1], t[2][2], t[2][3], t[2][4]) [] OTHER -> OfUnix(Clock)
Reads ==
  CASE Tool = "ubx" -> UbxAsks(args) = [run |-> ~Meant("h"), hnr |-> Meant("hnr"), sender |-> IF Ids = <<>> THEN 61568 ELSE Ids[Len(Ids)][2]]
    [] Tool = "xcom" -> XcomAsks(args) = [run |-> ~Meant("h"), sender |-> IF Ids = <<>> THEN 4711 ELSE Ids[Len(Ids)][2]]
    [] Tool = "rtcm" ->
       LET a == RtcmAsks(args, Clock) IN
       /\ a.run = (Fatal = {}) /\ a.time = LastTime
       /\ a.ret = (IF Fatal # {} /\ meant[Before + 1][1] = "bad" THEN 255 ELSE 0)
       /\ (a.says # <<>>) = (Fatal # {} /\ meant[Before + 1][1] = "t")
       /\ (a.obs = 1) = (\E i \in 1..Before : meant[i][1] = "o")
       /\ {a.mask[i] : i \in 1..Len(a.mask)} = {MaskOf(meant[i][1]) : i \in {j \in 1..Before : meant[j][1] \in Masks}}
             \cup UNION {{MaskOf(meant[i][2]), MaskOf(meant[i][3])} : i \in {j \in 1..Before : meant[j][1] = "masks"}}
(* the calendar: one day after the other, and times within their week *)
Calendar == meant = <<>> =>
  /\ DayNumber(1980, 1, 6) = 0 /\ DayNumber(2017, 1, 1) = 13510 /\ OfDate(2017, 1, 1, 0) = <<1930, 18>> /\ OfUnix(1483228800) = <<1930, 18>>
  /\ OfUnix(1700000000)[2] = OfDate(2023, 11, 14, 22)[2] + 800
  /\ \A y \in 1980..2040 : /\ DayNumber(y + 1, 1, 1) - DayNumber(y, 12, 31) = 1
                           /\ \A m \in 1..11 : DayNumber(y, m + 1, 1) = DayNumber(y, m, 1) + MonthDays[m] + (IF m = 2 /\ IsLeapYear(y) THEN 1 ELSE 0)
=============================================================================
