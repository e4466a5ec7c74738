---------------------------- MODULE CommandLine ----------------------------
(***************************************************************************)
(* Command lines of the converter programs, as sequences of bytes: which   *)
(* options they give, what numbers and times their arguments stand for.    *)
(***************************************************************************)
EXTENDS Integers, Sequences
CH == [dash |-> 45, eq |-> 61, colon |-> 58, dot |-> 46, x |-> 120, X |-> 88]
Letter == [h |-> 104, s |-> 115, w |-> 119, d |-> 100, t |-> 116, o |-> 111, b |-> 98, c |-> 99, l |-> 108, v |-> 118,
           G |-> 71, R |-> 82, E |-> 69, C |-> 67, J |-> 74, S |-> 83]
SenderIdWord == <<115, 101, 110, 100, 101, 114, 95, 105, 100>>
HelpWord == <<104, 101, 108, 112>>
HnrWord == <<104, 110, 114>>
IndexOf(s, ch) == LET at == {i \in 1..Len(s) : s[i] = ch} IN IF at = {} THEN 0 ELSE CHOOSE i \in at : \A j \in at : i <= j

(* The options of a command line: with is the letters that take an argument, words maps a long name to <<letter, takes an
   argument>>.  An option is <<letter, argument>>.                                                                       *)
RECURSIVE Cluster(_, _, _, _)
(* a = "-xyz", from its i-th character on; <<options, whether the next word is the argument of the last one>> *)
Cluster(a, i, with, acc) ==
  IF i > Len(a) THEN <<acc, FALSE>>
  ELSE IF a[i] \notin with THEN Cluster(a, i + 1, with, Append(acc, <<a[i], <<>>>>))
  ELSE IF i < Len(a) THEN <<Append(acc, <<a[i], SubSeq(a, i + 1, Len(a))>>), FALSE>>
  ELSE <<Append(acc, <<a[i], <<>>>>), TRUE>>
RECURSIVE Options(_, _, _)
Options(args, with, words) ==
  IF args = <<>> THEN <<>>
  ELSE LET a == Head(args) rest == Tail(args) IN
  IF Len(a) < 2 \/ a[1] # CH.dash THEN Options(rest, with, words)
  ELSE IF a[2] = CH.dash THEN
    LET q == IndexOf(a, CH.eq)
        name == SubSeq(a, 3, IF q = 0 THEN Len(a) ELSE q - 1)
        w == {e \in words : e[1] = name}
    IN IF w = {} THEN Options(rest, with, words)
       ELSE LET e == CHOOSE e \in w : TRUE IN
            IF ~e[3] THEN <<<<e[2], <<>>>>>> \o Options(rest, with, words)
            ELSE IF q # 0 THEN <<<<e[2], SubSeq(a, q + 1, Len(a))>>>> \o Options(rest, with, words)
            ELSE IF rest = <<>> THEN <<>>
            ELSE <<<<e[2], rest[1]>>>> \o Options(Tail(rest), with, words)
  ELSE LET c == Cluster(a, 2, with, <<>>) n == Len(c[1]) IN
       IF ~c[2] THEN c[1] \o Options(rest, with, words)
       ELSE IF rest = <<>> THEN SubSeq(c[1], 1, n - 1)
       ELSE SubSeq(c[1], 1, n - 1) \o <<<<c[1][n][1], rest[1]>>>> \o Options(Tail(rest), with, words)

---------------------------------------------------------------------------
(* numbers *)
IsDigit(c) == c \in 48..57
Digit(c) == IF IsDigit(c) THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 99
RECURSIVE Value(_, _, _)
Value(s, base, acc) == IF s = <<>> \/ Digit(Head(s)) >= base THEN acc ELSE Value(Tail(s), base, acc * base + Digit(Head(s)))
(* decimal, or hexadecimal after 0x *)
Number(s) ==
  IF Len(s) > 2 /\ s[1] = 48 /\ s[2] \in {CH.x, CH.X} THEN Value(SubSeq(s, 3, Len(s)), 16, 0) ELSE Value(s, 10, 0)
Negative(s) == s # <<>> /\ s[1] = CH.dash
AllDigits(s) == s # <<>> /\ \A i \in 1..Len(s) : IsDigit(s[i])
RECURSIVE Split(_, _)
Split(s, ch) == LET q == IndexOf(s, ch) IN IF q = 0 THEN <<s>> ELSE <<SubSeq(s, 1, q - 1)>> \o Split(SubSeq(s, q + 1, Len(s)), ch)
(* an argument may follow an equals sign *)
Bare(s) == IF s # <<>> /\ s[1] = CH.eq THEN Tail(s) ELSE s
IsReal(s) == LET p == Split(s, CH.dot) IN AllDigits(p[1]) /\ (Len(p) = 1 \/ (Len(p) = 2 /\ (p[2] = <<>> \/ AllDigits(p[2]))))
Whole(s) == Number(Split(s, CH.dot)[1])

---------------------------------------------------------------------------
(* times: <<week, second>> of GPS *)
WeekSec == 604800
OfSeconds(wn, sec) == <<wn + sec \div WeekSec, sec % WeekSec>>
IsLeapYear(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays == <<31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
RECURSIVE DaysOfYears(_, _), DaysOfMonths(_, _)
DaysOfYears(from, to) == IF from >= to THEN 0 ELSE (IF IsLeapYear(from) THEN 366 ELSE 365) + DaysOfYears(from + 1, to)
DaysOfMonths(y, m) == IF m <= 1 THEN 0 ELSE MonthDays[m - 1] + (IF m - 1 = 2 /\ IsLeapYear(y) THEN 1 ELSE 0) + DaysOfMonths(y, m - 1)
(* days since Sunday, 6 January 1980 *)
DayNumber(y, m, d) == DaysOfYears(1980, y) + DaysOfMonths(y, m) + (d - 1) - 5
(* leap seconds at a UTC day; the last ones are of 1 July 2012, 1 July 2015 and 1 January 2017 *)
LeapOfDay(n) == IF n >= DayNumber(2017, 1, 1) THEN 18 ELSE IF n >= DayNumber(2015, 7, 1) THEN 17 ELSE 16
OfDay(n, sec) == OfSeconds(n \div 7, (n % 7) * 86400 + sec + LeapOfDay(n))
OfDate(y, m, d, h) == OfDay(DayNumber(y, m, d), 3600 * h)
(* seconds since 1970 *)
OfUnix(t) == LET s == t - 315964800 IN OfDay(s \div 86400, s % 86400)

---------------------------------------------------------------------------
(* What a command line asks for: [run |-> goes on to convert, ret |-> exit status if not, ..]; the first option that ends the
   program decides.                                                                                                         *)
IsSenderTool(args, words) == Options(args, {Letter.s}, words)
LastOf(os, letter) == LET at == {i \in 1..Len(os) : os[i][1] = letter} IN IF at = {} THEN 0 ELSE CHOOSE i \in at : \A j \in at : j <= i
SenderOf(os, default) == LET i == LastOf(os, Letter.s) IN IF i = 0 THEN default ELSE Number(os[i][2])
Asked(os, letter) == LastOf(os, letter) # 0
UbxWords == {<<SenderIdWord, Letter.s, TRUE>>, <<HnrWord, 0, FALSE>>}
XcomWords == {<<SenderIdWord, Letter.s, TRUE>>, <<HelpWord, Letter.h, FALSE>>}
UbxAsks(args) == LET os == Options(args, {Letter.s}, UbxWords) IN
  [run |-> ~Asked(os, Letter.h), hnr |-> Asked(os, 0), sender |-> SenderOf(os, 61568)]
XcomAsks(args) == LET os == Options(args, {Letter.s}, XcomWords) IN
  [run |-> ~Asked(os, Letter.h), sender |-> SenderOf(os, 4711)]
(* rtcm3tosbp: options are taken in order; the last of -w, -d and -s gives the time *)
RECURSIVE Take(_, _, _)
Take(os, clock, c) ==
  IF os = <<>> \/ ~c.run THEN c
  ELSE LET o == Head(os)[1] a == Bare(Head(os)[2]) p == Split(a, CH.colon) IN
  Take(Tail(os), clock,
    CASE o = Letter.h -> [c EXCEPT !.run = FALSE]
      [] o = Letter.t -> [c EXCEPT !.run = FALSE, !.says = OfUnix(clock)]
      [] o = Letter.w -> IF Len(p) < 2 \/ ~AllDigits(p[1]) \/ ~IsReal(p[2]) \/ Whole(p[2]) >= WeekSec THEN [c EXCEPT !.run = FALSE, !.ret = 255]
                         ELSE [c EXCEPT !.time = <<Number(p[1]), Whole(p[2])>>]
      [] o = Letter.d -> IF Len(p) < 4 \/ \E i \in 1..4 : ~AllDigits(p[i]) THEN [c EXCEPT !.run = FALSE, !.ret = 255]
                         ELSE [c EXCEPT !.time = OfDate(Number(p[1]), Number(p[2]), Number(p[3]), Number(p[4]))]
      [] o = Letter.s -> [c EXCEPT !.time = OfUnix(clock)]
      [] o = Letter.o -> [c EXCEPT !.obs = 1]
      [] o = Letter.G -> [c EXCEPT !.mask = Append(@, 0)]
      [] o = Letter.S -> [c EXCEPT !.mask = Append(@, 1)]
      [] o = Letter.R -> [c EXCEPT !.mask = Append(@, 2)]
      [] o = Letter.C -> [c EXCEPT !.mask = Append(@, 3)]
      [] o = Letter.J -> [c EXCEPT !.mask = Append(@, 4)]
      [] o = Letter.E -> [c EXCEPT !.mask = Append(@, 5)]
      [] OTHER -> c)
RtcmAsks(args, clock) ==
  Take(Options(args, {Letter.b, Letter.c, Letter.l, Letter.w, Letter.d}, {}), clock,
       [run |-> TRUE, ret |-> 0, says |-> <<>>, time |-> <<>>, obs |-> 0, mask |-> <<>>])
(* decimal digits of a number; wn:tow with six decimals *)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
TimeText(t) == Digits(t[1]) \o <<CH.colon>> \o Digits(t[2]) \o <<CH.dot, 48, 48, 48, 48, 48, 48, 10>>
=============================================================================
