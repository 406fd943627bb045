------------------------------- MODULE IniMC -------------------------------
EXTENDS Ini
RECURSIVE Upto(_)
Alpha == {97, 61, 91, 93, 10, 32}
Upto(n) == IF n = 0 THEN {<<>>} ELSE LET U == Upto(n - 1) IN U \cup {Append(s, c) : s \in U, c \in Alpha}
MCTexts == Upto(5) \cup {<<59>> \o s : s \in Upto(3)} \cup {<<97, 61, 97, 10>> \o s : s \in Upto(3)}
MCNames == {<<>>, <<97>>, <<32, 97>>, <<91>>, <<93>>}
=============================================================================
