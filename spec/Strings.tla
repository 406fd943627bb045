------------------------------ MODULE Strings ------------------------------
(* Byte strings as sequences; positions are 0-based, -1 means "none".        *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
\* does n occur in h at position p?
OccursAt(h, n, p) == p >= 0 /\ p + Len(n) <= Len(h) /\ \A i \in 1..Len(n) : h[p + i] = n[i]
Occurrences(h, n) == {p \in 0..(Len(h) - Len(n)) : OccursAt(h, n, p)}
Find(h, n) == LET O == Occurrences(h, n) IN IF O = {} THEN -1 ELSE Min(O)
RFind(h, n) == LET O == Occurrences(h, n) IN IF O = {} THEN -1 ELSE Max(O)
HasSub(h, n) == Occurrences(h, n) # {}
StartsWith(h, n) == OccursAt(h, n, 0)
EndsWith(h, n) == OccursAt(h, n, Len(h) - Len(n))
Elems(s) == {s[i] : i \in 1..Len(s)}
FirstOf(h, set, p) == LET O == {i \in p..(Len(h) - 1) : h[i + 1] \in set} IN IF O = {} THEN -1 ELSE Min(O)
LastOf(h, set, p) == LET O == {i \in 0..Min2(p, Len(h) - 1) : h[i + 1] \in set} IN IF O = {} THEN -1 ELSE Max(O)
\* at most c bytes from position p; empty behind the end
Substr(s, p, c) == SubSeq(s, p + 1, Min2(p + c, Len(s)))
From(s, p) == SubSeq(s, p + 1, Len(s))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
SgnOf(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
CmpStr(a, b) == LET D == {i \in 1..Min2(Len(a), Len(b)) : a[i] # b[i]}
                IN IF D = {} THEN SgnOf(Len(a) - Len(b)) ELSE SgnOf(a[Min(D)] - b[Min(D)])
\* split at every occurrence of the byte c
SplitAt(s, c) == LET P == SetToSortSeq({i \in 1..Len(s) : s[i] = c}, <)
                     Piece(k) == SubSeq(s, IF k = 1 THEN 1 ELSE P[k - 1] + 1, IF k > Len(P) THEN Len(s) ELSE P[k] - 1)
                 IN [k \in 1..(Len(P) + 1) |-> Piece(k)]
RECURSIVE JoinSeq(_, _)
JoinSeq(ss, sep) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o JoinSeq(Tail(ss), sep)
AllEqual(s, v) == \A i \in 1..Len(s) : s[i] = v
=============================================================================
