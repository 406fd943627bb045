----------------------------- MODULE DiffsJudge -----------------------------
(* What a diff has to be under given options: the hunks (read from the        *)
(* unified output, which is shown again and compared) have to be those of a   *)
(* script between the two texts in which lines are kept that count as equal.  *)
EXTENDS Diffs
Q == INSTANCE Quoting WITH Alphabet <- {}, MaxLen <- 0, Options <- {}, opts <- 0, text <- 0, st <- 0
Huge == 1000000
Blank == {9, 10, 11, 12, 13, 32}
RECURSIVE RTrimB(_), Squeeze(_)
RTrimB(s) == IF s # <<>> /\ s[Len(s)] \in Blank THEN RTrimB(SubSeq(s, 1, Len(s) - 1)) ELSE s
Squeeze(s) == IF s = <<>> THEN <<>>
              ELSE IF s[1] \notin Blank THEN <<s[1]>> \o Squeeze(Tail(s))
              ELSE LET r == FirstOf(s, {s[i] : i \in 1..Len(s)} \ Blank, 0) IN IF r < 0 THEN <<>> ELSE <<32>> \o Squeeze(From(s, r))
LTrim1(s) == IF s # <<>> /\ s[1] = 32 THEN Tail(s) ELSE s
Spaces(s, o) == IF o.all THEN SelectSeq(s, LAMBDA x : x \notin Blank) ELSE IF o.multi THEN LTrim1(Squeeze(s)) ELSE IF o.trail THEN RTrimB(s) ELSE s
Comments(s, o) ==
  CASE o.strip = "none" -> s
    [] o.strip = "line" -> LET p == Find(s, o.mark) IN IF p < 0 THEN s ELSE IF o.trim THEN RTrimB(SubSeq(s, 1, p)) ELSE SubSeq(s, 1, p)
    [] OTHER -> LET t == Q!Parse(o.po, s, 0) IN IF t.done # 1 THEN s ELSE IF o.trim THEN RTrimB(t.out) ELSE t.out
IsDigit(x) == x >= 48 /\ x <= 57
\* first match of an expression: <<start, length>>, start < 0: none
Match(s, kind) ==
  CASE kind = "digits" -> LET p == FirstOf(s, 48..57, 0) q == IF p < 0 THEN 0 ELSE FirstOf(s, {s[i] : i \in 1..Len(s)} \ (48..57), p) IN <<p, IF p < 0 THEN 0 ELSE (IF q < 0 THEN Len(s) ELSE q) - p>>
    [] kind = "hash" -> IF s # <<>> /\ s[1] = 35 THEN <<0, 1>> ELSE <<-1, 0>>
    [] kind = "empty" -> IF s = <<>> THEN <<0, 0>> ELSE <<-1, 0>>
    [] kind = "last" -> IF s # <<>> THEN <<Len(s) - 1, 1>> ELSE <<-1, 0>>
    [] OTHER -> <<-1, 0>>
Matches(s, kind) == Match(s, kind)[1] >= 0
Replace(s, rr) == LET m == Match(s, rr.kind) IN IF m[1] < 0 THEN s ELSE SubSeq(s, 1, m[1]) \o rr.by \o From(s, m[1] + m[2])
Fold(s) == [i \in 1..Len(s) |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]]
\* the lines as they are shown
LinesFor(text, o) == LET ls == Lines(text) IN [i \in 1..Len(ls) |-> <<ls[i][1], ls[i][2] \/ o.nonl>>]
\* what is compared: <<matching, characters, has newline>>
Norm(x, o, rr) == LET p == Replace(Comments(Spaces(x[1], o), o), rr) IN <<x[2] /\ Matches(p, o.match), IF o.fold THEN Fold(p) ELSE p, x[2]>>
Equal(x, y) == (x[1] /\ y[1]) \/ (x[2] = y[2] /\ x[3] = y[3])
\* hunks nobody wants to see
AllBlank(e) == \A k \in 1..Len(e) : e[k][1] # Keep => e[k][2] = <<>>
AllMatch(e, o) == \A k \in 1..Len(e) : e[k][1] # Keep => Matches(e[k][2], o.match)
Hidden(h, o) == (o.blank /\ AllBlank(h.e)) \/ (o.chunks /\ o.match # "none" /\ AllMatch(h.e, o))
Visible(hs, o) == SelectSeq(hs, LAMBDA h : ~Hidden(h, o))
Kinds(e) == \A k \in 1..Len(e) : e[k][1] \in {Keep, Del, Add}
\* without looking for the same line further on
RECURSIVE Straight(_, _, _, _, _)
Straight(e, E(_, _), k, i, j) == IF k > Len(e) THEN TRUE
  ELSE CASE e[k][1] = Keep -> i = j /\ E(i, j) /\ Straight(e, E, k + 1, i + 1, j + 1)
         [] e[k][1] = Del -> Straight(e, E, k + 1, i + 1, j)
         [] OTHER -> Straight(e, E, k + 1, i, j + 1)
DiffOk(r) ==
  LET o == r.o
      L == TLCEval(LinesFor(r.L, o))
      R == TLCEval(LinesFor(r.R, o))
      NL == TLCEval([i \in 1..Len(L) |-> Norm(L[i], o, o.rl)])
      NR == TLCEval([i \in 1..Len(R) |-> Norm(R[i], o, o.rr)])
      E(i, j) == Equal(NL[i], NR[j])
      e == TLCEval(Fill(L, r.big, 0))
      none(K) == \A k \in 1..Len(e) : e[k][1] \notin K
      blankL(i) == IF L[i][1] = <<>> THEN 0 ELSE 1
      blankR(j) == IF R[j][1] = <<>> THEN 0 ELSE 1
      matchL(i) == IF Matches(L[i][1], o.match) THEN 0 ELSE 1
      matchR(j) == IF Matches(R[j][1], o.match) THEN 0 ELSE 1
      Shows(x, hs) == x.out = Render(hs, x.fmt, x.width, x.hdr) IN
  /\ r.ok
  /\ IF r.L = r.R THEN r.big = <<>> /\ r.bout = <<>> /\ \A k \in 1..Len(r.outs) : r.outs[k].out = <<>>
     ELSE IF r.big = <<>>
     THEN /\ r.bout = <<>>
          /\ \A k \in 1..Len(r.outs) : r.outs[k].out = <<>> \/ r.outs[k].skip
          /\ \/ Distance(Len(L), Len(R), E) = 0
             \/ IF o.blank THEN WDistance(Len(L), Len(R), E, blankL, blankR) = 0 ELSE FALSE
             \/ IF o.chunks /\ o.match # "none" THEN WDistance(Len(L), Len(R), E, matchL, matchR) = 0 ELSE FALSE
     ELSE /\ Kinds(e)
          /\ Walk(L, R, e, E, 1, 1, 1)
          /\ r.big = Hunks(e, Huge)
          /\ ~Hidden(r.big[1], o)
          /\ r.bout = Render(r.big, "unified", 0, TRUE)
          \* all lines in their places equal: nothing to show
          /\ ~(Len(L) = Len(R) /\ \A i \in 1..Len(L) : E(i, i))
          /\ r.alg = "direct" => Straight(e, E, 1, 1, 1) /\ Count(e, {Keep}) = Cardinality({i \in 1..Min2(Len(L), Len(R)) : E(i, i)})
          /\ r.least => Cost(r.big) = Distance(Len(L), Len(R), E)
          /\ r.least64 => LET d == Distance(Len(L), Len(R), E) IN d <= 64 => Cost(r.big) = d
          /\ \A k \in 1..Len(r.outs) : LET x == r.outs[k] IN
               Shows(x, Visible(IF x.skip THEN Hunks(SelectSeq(e, LAMBDA y : y[1] # Del), x.c) ELSE Hunks(e, x.c), o))
          \* only lines that are really the same are kept: patching gives the other text
          /\ r.exact => Apply(L, Hunks(e, 0), 0) = R
\* ---- the lines that name the files
Strip(name, how) == CASE how.kind = "plain" -> IF StartsWith(name, how.text) THEN From(name, Len(how.text)) ELSE name
                      [] how.kind = "dirs" -> LET p == LastOf(name, {47}, Len(name)) IN From(name, p + 1)             \* .*/
                      [] how.kind = "one" -> LET p == FirstOf(name, {47}, 0) IN IF p < 0 THEN name ELSE From(name, p + 1)  \* [^/]*/
                      [] OTHER -> IF StartsWith(name, <<97, 47>>) \/ StartsWith(name, <<98, 47>>) THEN From(name, 2) ELSE name \* (a|b)/
FileLine(name, how, time) == (IF name = <<>> THEN <<45>> ELSE Strip(name, how)) \o (IF time = <<>> THEN <<>> ELSE <<32>> \o time)
HeadOf(r) ==
  LET p == IF r.use = "right" THEN r.rname ELSE r.lname
      q == IF r.use = "left" THEN r.lname ELSE r.rname
      m == IF r.fmt = "context" THEN <<<<42, 42, 42, 32>>, <<45, 45, 45, 32>>>> ELSE <<<<45, 45, 45, 32>>, <<43, 43, 43, 32>>>>
      u == IF r.use = "right" THEN r.rtime ELSE r.ltime
      v == IF r.use = "left" THEN r.ltime ELSE r.rtime IN
  IF r.L = r.R \/ r.use = "none" \/ r.fmt \in {"normal", "side"} THEN <<>>
  ELSE m[1] \o FileLine(p, r.how, u) \o <<10>> \o m[2] \o FileLine(q, r.how, v) \o <<10>>
HeaderOk(r) == r.ok /\ r.head = HeadOf([use |-> r.use, lname |-> r.lname, rname |-> r.rname, fmt |-> r.fmt, how |-> r.how, ltime |-> r.time, rtime |-> r.time, L |-> r.L, R |-> r.R])
\* ---- names of options
FlagOk(r) == r.val = CASE r.what = "alg" -> (CASE r.in = "direct" -> "direct" [] r.in = "myers" -> "myers" [] r.in = "naive" -> "naive" [] r.in = "unified" -> "myers" [] OTHER -> "")
                       [] r.what = "fmt" -> (IF r.in \in {"context", "normal", "side-by-side", "unified"} THEN r.in ELSE "")
                       [] OTHER -> (IF r.in \in {"both", "left", "none", "right"} THEN r.in ELSE "")
=============================================================================
