---------------------------- MODULE MC_ProgramIo ----------------------------
(* Every command line of a small set of words, options first, over every set *)
(* of files: what the programs take for INPUT and OUTPUT is what was meant,  *)
(* unless an option's value is the name of a file; every copying program     *)
(* then leaves its whole input in the right place and nothing else changed.  *)
EXTENDS ProgramIo, FiniteSets, TLC
CONSTANTS MaxOpts, Sizes
VARIABLES words, before, all
mcvars == <<vars, words, before, all>>
Names == {"a", "b", "c"}
Dash(w) == w \in {"-x", "-v"}
Opts == UNION {[1..n -> {<<"-x">>, <<"-v", "5">>, <<"-v", "c">>}] : n \in 0..MaxOpts}
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Values(s) == {s[i][2] : i \in {j \in DOMAIN s : Len(s[j]) = 2}}
Positional == {<<>>} \cup {<<i>> : i \in {"a", "b"}} \cup {<<i, o>> : i \in {"a", "b"}, o \in Names}
Contents == {<<>>, <<1>>, <<2, 1>>, <<1, 2, 1>>}
Init == /\ phase = "idle" /\ words = <<>> /\ before = <<>> /\ all = <<>> /\ files = <<>> /\ stdin = <<>> /\ stdout = <<>>
        /\ place = <<>> /\ rest = <<>> /\ sent = <<>> /\ status = 0
Go == /\ phase = "idle"
      /\ \E o \in Opts, p \in Positional, is \in SUBSET Names, c \in Contents, in \in {<<>>, <<3, 3>>} :
           LET f == [n \in is |-> IF p # <<>> /\ n = p[1] THEN c ELSE <<7>>] IN
           /\ p # <<>> => p[1] \in is
           /\ Len(p) = 2 => p[1] # p[2]
           /\ Values(o) \cap is = {}
           /\ words' = Flat(o) \o p /\ before' = f /\ all' = Source(p, f, in)
           /\ Assert(Guess(Flat(o) \o p, Dash, is) = p, <<"not what was meant", o, p, is>>)
           /\ Start(p, f, in)
Copy == \E n \in Sizes : \E k \in 0..n : k <= Len(rest) /\ LET b == SubSeq(rest, 1, k) IN
          /\ (k = 0 => rest = <<>>) /\ phase = "runs"
          /\ rest' = SubSeq(rest, k + 1, Len(rest)) /\ sent' = sent \o b
          /\ UNCHANGED <<files, stdin, stdout, place, phase, status, words, before, all>>
End == Exit(0) /\ UNCHANGED <<words, before, all>>
Spec == Init /\ [][Go \/ Copy \/ End]_mcvars
Done == phase = "done"
Whole == Done /\ rest = <<>> => (IF Len(place) = 2 THEN files[place[2]] ELSE stdout) = all
InOrder == phase \in {"runs", "done"} => sent \o rest = all
NoOther == \A n \in DOMAIN before : (phase # "idle" /\ (Len(place) < 2 \/ n # place[2])) => files[n] = before[n]
NoNew == phase # "idle" => DOMAIN files \subseteq DOMAIN before \cup (IF Len(place) = 2 THEN {place[2]} ELSE {})
Quiet == (phase # "idle" /\ Len(place) = 2) => stdout = <<>>
=============================================================================
