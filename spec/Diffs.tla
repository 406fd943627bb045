-------------------------------- MODULE Diffs --------------------------------
(* Line diffs.  A text is a sequence of lines <<characters, has newline>>;  *)
(* an edit script walks both texts; hunks show its changes with context;    *)
(* four output formats show hunks.                                          *)
EXTENDS Strings, TLC
Lines(text) == IF text = <<>> THEN <<>>
               ELSE LET p == SplitAt(text, 10) n == Len(p) IN
                    IF p[n] = <<>> THEN [i \in 1..(n - 1) |-> <<p[i], TRUE>>] ELSE [i \in 1..n |-> <<p[i], i < n>>]
\* ---- entries <<kind, characters, has newline>>: kind 0 kept, 1 removed, 2 added
Keep == 0
Del == 1
Add == 2
Count(e, K) == Cardinality({i \in 1..Len(e) : e[i][1] \in K})
Changes(e) == {i \in 1..Len(e) : e[i][1] # Keep}
\* a script's hunks: changes no more than 2c kept lines apart are shown together, with c lines around
\* hunk: [l, r: lines before it, e: entries]
RECURSIVE Groups(_, _, _)
Groups(e, c, from) == \* intervals of entries
  LET C == {i \in Changes(e) : i >= from} IN
  IF C = {} THEN <<>>
  ELSE LET a == Min(C)
           Ends == {i \in C : \A j \in (i + 1)..Min2(Len(e), i + (2 * c) + 1) : e[j][1] = Keep}
           b == Min(Ends) IN
       <<<<Max2(1, a - c), Min2(Len(e), b + c)>>>> \o Groups(e, c, b + 1)
HunkOf(e, g) == [l |-> Count(SubSeq(e, 1, g[1] - 1), {Keep, Del}), r |-> Count(SubSeq(e, 1, g[1] - 1), {Keep, Add}), e |-> SubSeq(e, g[1], g[2])]
Hunks(e, c) == LET G == Groups(e, c, 1) IN [k \in 1..Len(G) |-> HunkOf(e, G[k])]
\* the entries are a walk over both texts, kept lines are equal in the sense of E (indices)
RECURSIVE Walk(_, _, _, _, _, _, _)
Walk(L, R, e, E(_, _), k, i, j) ==
  IF k > Len(e) THEN i = Len(L) + 1 /\ j = Len(R) + 1
  ELSE CASE e[k][1] = Keep -> IF i <= Len(L) /\ j <= Len(R) /\ <<e[k][2], e[k][3]>> = L[i] /\ E(i, j) THEN Walk(L, R, e, E, k + 1, i + 1, j + 1) ELSE FALSE
         [] e[k][1] = Del -> IF i <= Len(L) /\ <<e[k][2], e[k][3]>> = L[i] THEN Walk(L, R, e, E, k + 1, i + 1, j) ELSE FALSE
         [] OTHER -> IF j <= Len(R) /\ <<e[k][2], e[k][3]>> = R[j] THEN Walk(L, R, e, E, k + 1, i, j + 1) ELSE FALSE
\* filling the space between hunks with kept lines
RECURSIVE Fill(_, _, _)
Fill(L, hs, at) == IF hs = <<>> THEN [i \in 1..(Len(L) - at) |-> <<Keep, L[at + i][1], L[at + i][2]>>]
                   ELSE LET h == hs[1] IN
                        IF h.l < at \/ h.l > Len(L) THEN <<<<9, <<>>, TRUE>>>>
                        ELSE [i \in 1..(h.l - at) |-> <<Keep, L[at + i][1], L[at + i][2]>>] \o h.e \o Fill(L, Tail(hs), h.l + Count(h.e, {Keep, Del}))
HunksOk(L, R, hs, c, E(_, _)) ==
  LET e == TLCEval(Fill(L, hs, 0)) IN
  /\ \A k \in 1..Len(e) : e[k][1] \in {Keep, Del, Add}
  /\ Walk(L, R, e, E, 1, 1, 1)
  /\ hs = Hunks(e, c)
\* what patching makes of L
RECURSIVE Apply(_, _, _)
Apply(L, hs, at) == IF hs = <<>> THEN SubSeq(L, at + 1, Len(L))
                    ELSE LET h == hs[1] N == SelectSeq(h.e, LAMBDA x : x[1] # Del) IN
                         SubSeq(L, at + 1, h.l) \o [i \in 1..Len(N) |-> <<N[i][2], N[i][3]>>] \o Apply(L, Tail(hs), h.l + Count(h.e, {Keep, Del}))
Cost(hs) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE S(k - 1) + Count(hs[k].e, {Del, Add}) IN S(Len(hs))
\* ---- the least number of removed and added lines: row by row, E as above
\* (WL, WR: what removing and adding a line costs)
WDistance(n, m, E(_, _), WL(_), WR(_)) ==
  LET First == FoldLeft(LAMBDA row, j : Append(row, row[j] + WR(j)), <<0>>, [j \in 1..m |-> j])
      Row(prev, i) == FoldLeft(LAMBDA row, j : Append(row, IF E(i, j) THEN Min2(prev[j], Min2(WL(i) + prev[j + 1], WR(j) + row[j])) ELSE Min2(WL(i) + prev[j + 1], WR(j) + row[j])),
                               <<prev[1] + WL(i)>>, [j \in 1..m |-> j]) IN
  FoldLeft(LAMBDA prev, i : TLCEval(Row(prev, i)), First, [i \in 1..n |-> i])[m + 1]
Distance(n, m, E(_, _)) == LET One(i) == 1 IN WDistance(n, m, E, One, One)
\* ---- formats
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
NoNl == <<10, 92, 32, 78, 111, 32, 110, 101, 119, 108, 105, 110, 101, 32, 97, 116, 32, 101, 110, 100, 32, 111, 102, 32, 102, 105, 108, 101>>
Shown(x) == x[2] \o (IF x[3] THEN <<>> ELSE NoNl) \o <<10>>
Cat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Of(h, K) == Count(h.e, K)
URange(at, n) == IF n = 0 THEN Digits(at) \o <<44, 48>> ELSE IF n = 1 THEN Digits(at + 1) ELSE Digits(at + 1) \o <<44>> \o Digits(n)
CRange(at, n) == IF n <= 1 THEN Digits(at + n) ELSE Digits(at + 1) \o <<44>> \o Digits(at + n)
Unified(h, hdr) == (IF hdr THEN <<64, 64, 32, 45>> \o URange(h.l, Of(h, {Keep, Del})) \o <<32, 43>> \o URange(h.r, Of(h, {Keep, Add})) \o <<32, 64, 64, 10>> ELSE <<>>)
              \o Cat([k \in 1..Len(h.e) |-> <<CASE h.e[k][1] = Keep -> 32 [] h.e[k][1] = Del -> 45 [] OTHER -> 43>> \o Shown(h.e[k])])
\* maximal runs of changes: removals with the additions right behind them; only removals or only additions otherwise
RunsOf(e) == \* <<first, last removal, last addition>>
  LET N == Len(e)
      Start(i) == e[i][1] # Keep /\ (i = 1 \/ e[i - 1][1] = Keep \/ (e[i][1] = Del /\ e[i - 1][1] = Add))
      DelEnd(i) == CHOOSE j \in (i - 1)..N : (\A k \in i..j : e[k][1] = Del) /\ (j = N \/ e[j + 1][1] # Del)
      AddEnd(i) == LET d == DelEnd(i) IN CHOOSE j \in d..N : (\A k \in (d + 1)..j : e[k][1] = Add) /\ (j = N \/ e[j + 1][1] # Add) IN
  LET S == SetToSortSeq({i \in 1..N : Start(i)}, <) IN [k \in 1..Len(S) |-> <<S[k], DelEnd(S[k]), AddEnd(S[k])>>]
Mixed(run) == run[2] >= run[1] /\ run[3] > run[2]
RunAt(rs, i) == CHOOSE k \in 1..Len(rs) : rs[k][1] <= i /\ i <= rs[k][3]
CMark(e, rs, i) == IF e[i][1] = Keep THEN 32 ELSE IF Mixed(rs[RunAt(rs, i)]) THEN 33 ELSE IF e[i][1] = Del THEN 45 ELSE 43
Stars(n) == [i \in 1..n |-> 42]
Context(h, hdr) ==
  LET rs == RunsOf(h.e)
      part(K) == Cat([i \in 1..Len(h.e) |-> IF h.e[i][1] \in K THEN <<CMark(h.e, rs, i), 32>> \o Shown(h.e[i]) ELSE <<>>]) IN
  (IF hdr THEN Stars(15) \o <<10>> \o Stars(3) \o <<32>> \o CRange(h.l, Of(h, {Keep, Del})) \o <<32>> \o Stars(4) \o <<10>> ELSE <<>>)
  \o (IF Of(h, {Del}) > 0 THEN part({Keep, Del}) ELSE <<>>)
  \o (IF hdr THEN <<45, 45, 45, 32>> \o CRange(h.r, Of(h, {Keep, Add})) \o <<32, 45, 45, 45, 45, 10>> ELSE <<>>)
  \o (IF Of(h, {Add}) > 0 THEN part({Keep, Add}) ELSE <<>>)
Normal(h, hdr) ==
  LET rs == RunsOf(h.e)
      One(run) ==
        LET before == SubSeq(h.e, 1, run[1] - 1)
            dels == run[2] - run[1] + 1
            adds == run[3] - run[2]
            la == h.l + Count(before, {Keep, Del})
            ra == h.r + Count(before, {Keep, Add}) IN
        (IF hdr THEN CRange(la, dels) \o <<IF dels = 0 THEN 97 ELSE IF adds = 0 THEN 100 ELSE 99>> \o CRange(ra, adds) \o <<10>> ELSE <<>>)
        \o Cat([i \in 1..dels |-> <<60, 32>> \o Shown(h.e[run[1] + i - 1])])
        \o (IF dels > 0 /\ adds > 0 THEN <<45, 45, 45, 10>> ELSE <<>>)
        \o Cat([i \in 1..adds |-> <<62, 32>> \o Shown(h.e[run[2] + i])]) IN
  Cat([k \in 1..Len(rs) |-> One(rs[k])])
RECURSIVE RTrim(_)
RTrim(s) == IF s # <<>> /\ s[Len(s)] = 32 THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
SideRow(x, mark, y, col) == LET a == SubSeq(x, 1, Min2(col, Len(x))) b == SubSeq(y, 1, Min2(col, Len(y))) IN
                            RTrim(a \o [i \in 1..(col - Len(a)) |-> 32] \o <<32, mark, 32>> \o b) \o <<10>>
NoNlRow(x) == IF x[3] THEN <<>> ELSE Tail(NoNl) \o <<10>>
SideBySide(h, width) ==
  LET col == IF width > 4 THEN (width - 3) \div 2 ELSE 1
      rs == RunsOf(h.e)
      none == <<9, <<>>, TRUE>>
      Block(run) ==
        LET dels == run[2] - run[1] + 1 adds == run[3] - run[2] IN
        Cat([i \in 1..Max2(dels, adds) |->
          LET a == IF i <= dels THEN h.e[run[1] + i - 1] ELSE none
              b == IF i <= adds THEN h.e[run[2] + i] ELSE none IN
          SideRow(a[2], IF i <= dels /\ i <= adds THEN 124 ELSE IF i <= dels THEN 60 ELSE 62, b[2], col) \o NoNlRow(a) \o NoNlRow(b)])
      At(i) == IF h.e[i][1] = Keep THEN SideRow(h.e[i][2], 32, h.e[i][2], col) \o NoNlRow(h.e[i])
               ELSE IF \E k \in 1..Len(rs) : rs[k][1] = i THEN Block(rs[CHOOSE k \in 1..Len(rs) : rs[k][1] = i]) ELSE <<>> IN
  Cat([i \in 1..Len(h.e) |-> At(i)])
Render(hs, format, width, hdr) == Cat([k \in 1..Len(hs) |-> CASE format = "unified" -> Unified(hs[k], hdr) [] format = "context" -> Context(hs[k], hdr) [] format = "normal" -> Normal(hs[k], hdr) [] OTHER -> SideBySide(hs[k], width)])
=============================================================================
