----------------------------- MODULE GlobToolMC ------------------------------
(* The glob program on small trees that grow entry by entry.                  *)
EXTENDS GlobTool
CONSTANT MaxEntries
VARIABLES t, o, ps
vars == <<t, o, ps>>
a == <<97>>
h == <<46, 104>>
c == <<97, 46, 99>>
Names == {a, h, c}
Patterns == {<<42, 42>>, <<42>>, <<42, 42, 47, 97>>}
Opts == [dotdir : BOOLEAN, dotfile : BOOLEAN, entries : BOOLEAN, fast : {FALSE}, recurse : BOOLEAN, size : BOOLEAN, sum : BOOLEAN, every : {0}, ext : BOOLEAN, type : {TRUE}, depth : {TRUE}]
Init == t = <<>> /\ o \in Opts /\ ps \in {{Asked(p)} : p \in Patterns}
Dirs == {0} \cup {i \in 1..Len(t) : t[i].kind = "d"}
PathOf(d, n) == IF d = 0 THEN n ELSE t[d].path \o <<SL>> \o n
Next == Len(t) < MaxEntries /\ UNCHANGED <<o, ps>> /\
        \E d \in Dirs : \E n \in Names : \E k \in {"d", "f", "l"} :
          /\ \A i \in 1..Len(t) : t[i].path # PathOf(d, n)
          /\ t' = Append(t, [path |-> PathOf(d, n), kind |-> k, size |-> IF k = "f" THEN 999 + Len(t) ELSE 0, up |-> d])
Spec == Init /\ [][Next]_vars
L == Listed(t, ps, o)
Number(T, name) == (CHOOSE r \in T : r[1] = name)[2]
\* every entry is counted as one thing
Counted == LET T == Table(t, L, o.ext) IN
  /\ Number(T, StrTotal) = Number(T, StrDirs) + Number(T, StrFiles) + Number(T, StrLinks) + Number(T, StrOther)
  /\ \A x, y \in T : x[1] = y[1] => x = y
  /\ o.ext => /\ Number(T, StrFiles) = Sum({r \in T : StartsWith(r[1], StrFileExt)}, [r \in T |-> r[2]])
              /\ Number(T, StrFileSize) = Sum({r \in T : StartsWith(r[1], StrFileSize \o <<40>>)}, [r \in T |-> r[2]])
\* the lines are of one width but for the paths, the table is of one width
Aligned == /\ \A x, y \in L : LET w(i) == Len(LineOf(t, L, i, o)) - Len(t[i].path) IN w(x) = w(y)
           /\ LET s == Summary(t, L, o.ext) IN \A i, j \in 1..Len(s) : Len(s[i]) = Len(s[j])
Distinct == Cardinality(Lines(t, L, [o EXCEPT !.entries = TRUE])) = Cardinality(L)
\* with the dot switches off nothing of that kind is left; what is left is what was there
Dots == LET all == Listed(t, ps, [o EXCEPT !.dotdir = TRUE, !.dotfile = TRUE]) IN
  /\ o.recurse => L \subseteq all
  /\ \A i \in L : ~o.dotdir => \A k \in Above(t, i) : ~Dotted(t[k])
  /\ \A i \in L : ~o.dotfile => ~(t[i].kind = "f" /\ Dotted(t[i]))
  /\ o.dotdir /\ o.dotfile => L = all
\* not entering what is listed: nothing listed is below something listed
Shallow == ~o.recurse => \A i \in L : Above(t, i) \cap L = {}
\* an output made of this is accepted, one with a line less or twice is not
RECURSIVE ListOf(_)
ListOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o ListOf(S \ {x})
Made == ListOf(Lines(t, L, o)) \o (IF o.sum \/ o.ext THEN <<<<>>>> \o Summary(t, L, o.ext) ELSE <<>>)
Accepted == /\ OutputOk(t, ps, o, Made)
            /\ Made # <<>> => ~OutputOk(t, ps, o, Tail(Made)) /\ ~OutputOk(t, ps, o, <<Made[1]>> \o Made)
=============================================================================
