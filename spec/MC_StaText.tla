----------------------------- MODULE MC_StaText -----------------------------
(* The texts have room, hold no NUL and begin as the message says, for all   *)
(* small messages: characters from a small alphabet with NUL.                *)
EXTENDS StaText, TLC
CONSTANTS Alphabet, MaxLen, Rooms
VARIABLES text, said, room
vars == <<text, said, room>>
(* nibbles to bytes: 999, 25, length, characters *)
RECURSIVE Pack(_)
Pack(n) == IF n = <<>> THEN <<>> ELSE <<16 * n[1] + (IF Len(n) > 1 THEN n[2] ELSE 0)>> \o Pack(SubSeq(n, 3, Len(n)))
Nib(c) == <<c \div 16, c % 16>>
RECURSIVE Nibs(_)
Nibs(s) == IF s = <<>> THEN <<>> ELSE Nib(Head(s)) \o Nibs(Tail(s))
Message == Pack(<<3, 14, 7>> \o Nib(25) \o Nib(Len(text)) \o Nibs(text))
Init == text = <<>> /\ room \in Rooms /\ said = <<>>
Type == Len(text) < MaxLen /\ \E c \in Alphabet : text' = Append(text, c) /\ UNCHANGED <<room, said>>
Decode == said' = Version(Message, room) /\ UNCHANGED <<text, room>>
Spec == Init /\ [][Type \/ Decode]_vars
Fits == Len(said) < room
NoNul == \A i \in 1..Len(said) : said[i] # 0
Begins == Len(said) <= Len(text) /\ SubSeq(text, 1, Len(said)) = said
Whole == LET v == Version(Message, room) IN Len(v) = Shorter(room - 1, Len(text)) \/ text[Len(v) + 1] = 0
Header == Number(Message) = 999 /\ Subtype(Message) = 25
=============================================================================
