----------------------------- MODULE ProgramIo -----------------------------
(***************************************************************************)
(* Where a program reads and writes:  prog OPTIONS [INPUT [OUTPUT]].       *)
(* It reads INPUT, or standard input, from its beginning to its end, and   *)
(* what it writes is all of OUTPUT, or of standard output, when it exits.  *)
(* No other file changes.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences
VARIABLES files,   \* contents by name
          stdin,   \* what is not yet read of standard input
          stdout,  \* what was written there
          place,   \* INPUT and OUTPUT as given
          rest,    \* what is not yet read of the input
          sent,    \* what the program wrote
          phase, status
vars == <<files, stdin, stdout, place, rest, sent, phase, status>>

Source(pos, f, in) == IF pos = <<>> THEN in ELSE f[pos[1]]
(* the last of the command line's words that are no options, two at most: what the programs look at, as they do not
   know which options have values *)
Tail2(words, Dash(_)) ==
  LET n == Len(words) IN
  IF n = 0 \/ Dash(words[n]) THEN <<>>
  ELSE IF n = 1 \/ Dash(words[n - 1]) THEN <<words[n]>> ELSE <<words[n - 1], words[n]>>
(* of these, the first that is a file is the input; a word before it is an option's value *)
Guess(words, Dash(_), isfile) ==
  LET t == Tail2(words, Dash) n == Len(t) IN
  IF n >= 1 /\ t[1] \in isfile THEN t ELSE IF n = 2 /\ t[2] \in isfile THEN <<t[2]>> ELSE <<>>

Start(pos, f, in) ==
  /\ phase' = "runs" /\ place' = pos /\ stdout' = <<>> /\ sent' = <<>> /\ status' = 0
  /\ rest' = Source(pos, f, in) /\ stdin' = in
  /\ files' = IF Len(pos) = 2 THEN [n \in DOMAIN f \cup {pos[2]} |-> IF n = pos[2] THEN <<>> ELSE f[n]] ELSE f
(* up to n bytes come, none only at the end *)
Read(n, b) ==
  /\ phase = "runs" /\ Len(b) <= n /\ Len(b) <= Len(rest) /\ SubSeq(rest, 1, Len(b)) = b
  /\ (b = <<>> /\ n > 0) => rest = <<>>
  /\ rest' = SubSeq(rest, Len(b) + 1, Len(rest))
  /\ UNCHANGED <<files, stdin, stdout, place, sent, phase, status>>
Write(b) == phase = "runs" /\ sent' = sent \o b /\ UNCHANGED <<files, stdin, stdout, place, rest, phase, status>>
(* what was written may be in the output at any time; it is all there when the program exits *)
Exit(rc) ==
  /\ phase = "runs" /\ phase' = "done" /\ status' = rc
  /\ IF Len(place) = 2 THEN files' = [files EXCEPT ![place[2]] = sent] /\ UNCHANGED stdout ELSE stdout' = sent /\ UNCHANGED files
  /\ UNCHANGED <<stdin, place, rest, sent>>
=============================================================================
