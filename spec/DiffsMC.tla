------------------------------- MODULE DiffsMC -------------------------------
(* A machine that walks two texts and shows what it finds as it goes: it     *)
(* keeps the last c kept lines, opens a hunk at a change and closes it when  *)
(* 2c + 1 kept lines follow.  Checked: whatever script it takes, the hunks   *)
(* are the script's hunks, patching with them makes the one text of the      *)
(* other, no script is cheaper than the distance, and every format shows     *)
(* the lines it has to.                                                      *)
EXTENDS Diffs
CONSTANTS Texts, Sizes
VARIABLES L, R, c,   \* the input
          i, j, e,   \* lines read, script so far
          out, open, tail, \* finished hunks; the open one ([l, r, e] or None), kept lines behind its last change
          done
vars == <<L, R, c, i, j, e, out, open, tail, done>>
None == [l |-> -1, r |-> -1, e |-> <<>>]
Init == L \in Texts /\ R \in Texts /\ c \in Sizes /\ i = 0 /\ j = 0 /\ e = <<>> /\ out = <<>> /\ open = None /\ tail = <<>> /\ done = FALSE
Entry(k, x) == <<k, x[1], x[2]>>
LastN(s, n) == SubSeq(s, Max2(1, Len(s) - n + 1), Len(s))
Closed == Append(out, [open EXCEPT !.e = @ \o SubSeq(tail, 1, Min2(c, Len(tail)))])
KeepLine == /\ i < Len(L) /\ j < Len(R) /\ L[i + 1] = R[j + 1]
            /\ LET x == Entry(Keep, L[i + 1]) full == open # None /\ Len(tail) = 2 * c IN
               /\ e' = Append(e, x)
               /\ out' = IF full THEN Closed ELSE out
               /\ open' = IF full THEN None ELSE open
               /\ tail' = IF open # None /\ ~full THEN Append(tail, x) ELSE LastN(Append(tail, x), c)
            /\ i' = i + 1 /\ j' = j + 1
Change(x) == /\ e' = Append(e, x)
             /\ open' = (IF open = None THEN [l |-> i - Len(tail), r |-> j - Len(tail), e |-> tail \o <<x>>] ELSE [open EXCEPT !.e = @ \o tail \o <<x>>])
             /\ tail' = <<>> /\ out' = out
Drop == i < Len(L) /\ Change(Entry(Del, L[i + 1])) /\ i' = i + 1 /\ j' = j
Insert == j < Len(R) /\ Change(Entry(Add, R[j + 1])) /\ j' = j + 1 /\ i' = i
Finish == /\ i = Len(L) /\ j = Len(R) /\ ~done
          /\ out' = (IF open # None THEN Closed ELSE out) /\ open' = None /\ tail' = <<>> /\ done' = TRUE
          /\ UNCHANGED <<e, i, j>>
Next == ~done /\ (((KeepLine \/ Drop \/ Insert) /\ UNCHANGED done) \/ Finish) /\ UNCHANGED <<L, R, c>>
Spec == Init /\ [][Next]_vars
Eq(a, b) == L[a] = R[b]
Patched == done => /\ HunksOk(L, R, out, c, Eq) /\ out = Hunks(e, c)
                   /\ Apply(L, out, 0) = R
                   /\ Cost(out) >= Distance(Len(L), Len(R), Eq)
                   /\ (out = <<>>) => L = R
\* every changed line is shown once in every format
Rows(s) == Cardinality({k \in 1..Len(s) : s[k] = 10})
Bare == {k \in 1..Len(e) : ~e[k][3] /\ \E h \in 1..Len(out) : \E m \in 1..Len(out[h].e) : out[h].e[m] = e[k]}
RECURSIVE Total(_, _)
Total(hs, K) == IF hs = <<>> THEN 0 ELSE Of(hs[1], K) + Total(Tail(hs), K)
AllShown == (done /\ \A k \in 1..Len(e) : e[k][3]) =>
   /\ Rows(Render(out, "unified", 0, TRUE)) = Len(out) + Total(out, {Keep, Del, Add})
   /\ Rows(Render(out, "context", 0, TRUE)) >= (3 * Len(out)) + Total(out, {Del, Add})
   /\ Rows(Render(out, "normal", 0, TRUE)) >= Total(out, {Del, Add})
   /\ Rows(Render(out, "side", 10, TRUE)) <= Total(out, {Keep, Del, Add})
\* the distance can be reached: the number of lines left is never less than what is missing
Bound == Distance(Len(L), Len(R), Eq) <= Len(L) + Len(R) /\ (Distance(Len(L), Len(R), Eq) = 0) = (L = R)
a == <<97>>
b == <<98>>
T(s) == [k \in 1..Len(s) |-> <<s[k], TRUE>>]
Bare1(s) == [k \in 1..Len(s) |-> <<s[k], k < Len(s)>>]
MCTexts == {T(s) : s \in UNION {[1..n -> {a, b}] : n \in 0..3}} \cup {Bare1(s) : s \in UNION {[1..n -> {a, b}] : n \in 1..2}}
           \cup {T(<<a, a, a, a, a>>), T(<<b, a, a, a, b>>), T(<<a, b, a, a, b, a>>)}
MCSizes == {0, 1}
=============================================================================
