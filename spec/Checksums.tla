----------------------------- MODULE Checksums -----------------------------
(* Lines of checksum files (bytes): digest digits, a space, a marker (space *)
(* or asterisk), the name of a file.                                        *)
EXTENDS Integers, Sequences
None == [ok |-> FALSE]
HexDigit(b) == b \in 48..57 \/ b \in 97..102 \/ b \in 65..70
\* w: how many digits are expected
ParseLine(s, w) ==
  IF /\ Len(s) >= w + 3 /\ \A i \in 1..w : HexDigit(s[i])
     /\ s[w + 1] = 32 /\ s[w + 2] \in {32, 42}
  THEN [ok |-> TRUE, hex |-> SubSeq(s, 1, w), name |-> SubSeq(s, w + 3, Len(s))]
  ELSE None
\* names with backslashes or line breaks: escaped, the line starts with a backslash
RECURSIVE Escape(_), Unescape(_)
Escape(s) == IF s = <<>> THEN <<>>
             ELSE (CASE s[1] = 92 -> <<92, 92>> [] s[1] = 10 -> <<92, 110>> [] s[1] = 13 -> <<92, 114>> [] OTHER -> <<s[1]>>) \o Escape(Tail(s))
Unescape(s) == IF s = <<>> THEN [ok |-> TRUE, name |-> <<>>]
               ELSE IF s[1] # 92 THEN LET r == Unescape(Tail(s)) IN IF r.ok THEN [r EXCEPT !.name = <<s[1]>> \o @] ELSE None
               ELSE IF Len(s) < 2 \/ s[2] \notin {92, 110, 114} THEN None
               ELSE LET r == Unescape(SubSeq(s, 3, Len(s))) c == CASE s[2] = 92 -> 92 [] s[2] = 110 -> 10 [] OTHER -> 13
                    IN IF r.ok THEN [r EXCEPT !.name = <<c>> \o @] ELSE None
Special(s) == \E i \in 1..Len(s) : s[i] \in {92, 10, 13}
Breaks(s) == \E i \in 1..Len(s) : s[i] \in {10, 13}
Line(hex, name) == IF Special(name) THEN <<92>> \o hex \o <<32, 32>> \o Escape(name) ELSE hex \o <<32, 32>> \o name
ReadLine(s, w) ==
  IF s # <<>> /\ s[1] = 92
  THEN LET p == ParseLine(Tail(s), w) IN
       IF ~p.ok THEN None ELSE LET u == Unescape(p.name) IN IF u.ok THEN [p EXCEPT !.name = u.name] ELSE None
  ELSE ParseLine(s, w)
Lower(s) == [i \in 1..Len(s) |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]]
RECURSIVE LinesFrom(_, _)
LinesFrom(s, i) == IF i > Len(s) THEN <<>>
                   ELSE LET E == {k \in i..Len(s) : s[k] = 10} IN
                        IF E = {} THEN <<SubSeq(s, i, Len(s))>>
                        ELSE LET e == CHOOSE k \in E : \A j \in E : k <= j IN <<SubSeq(s, i, e - 1)>> \o LinesFrom(s, e + 1)
Lines(s) == LinesFrom(s, 1)
=============================================================================
