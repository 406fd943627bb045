------------------------------ MODULE Coverage ------------------------------
(* The coverage gate: reports of runs are merged per file, markers in the   *)
(* sources take lines, branches and functions out or together, a policy     *)
(* selects files, groups them and sets minimums.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Metrics == <<"lines", "functions", "branches">>
RECURSIVE GlobMatch(_, _)
GlobMatch(p, s) == IF p = <<>> THEN s = <<>>
                   ELSE IF p[1] = 42 THEN GlobMatch(Tail(p), s) \/ (s # <<>> /\ GlobMatch(p, Tail(s)))
                   ELSE s # <<>> /\ (p[1] = 63 \/ p[1] = s[1]) /\ GlobMatch(Tail(p), Tail(s))
MatchesAny(s, ps) == \E i \in 1..Len(ps) : GlobMatch(ps[i], s)
Range(s) == {s[i] : i \in 1..Len(s)}
\* ---- merging.  A report is a sequence of records of files; <<thing, covered>>
Recs(report, f) == {i \in 1..Len(report) : report[i].file = f}
Things(pairs) == LET K == {p[1] : p \in pairs} IN {<<k, \E p \in pairs : p[1] = k /\ p[2]>> : k \in K}
LinesOf(report, f) == Things(UNION {{<<d[1], d[2] > 0>> : d \in Range(report[i].da)} : i \in Recs(report, f)})
FnLine(r, name) == LET S == {k \in 1..Len(r.fn) : r.fn[k][2] = name} IN IF S = {} THEN 0 ELSE r.fn[CHOOSE k \in S : \A j \in S : j <= k][1]
FunctionsOf(report, f) == Things(UNION {{<<<<FnLine(report[i], d[2]), d[2]>>, d[1] > 0>> : d \in Range(report[i].fnda)} : i \in Recs(report, f)})
BranchesOf(report, f) == Things(UNION {{<<<<d[1], d[2], d[3]>>, d[4] > 0>> : d \in Range(report[i].brda)} : i \in Recs(report, f)})
\* ---- markers: per source line [line, br, fn, merge, brace: BOOLEAN]
Marked(src, what) == {n \in 1..Len(src) : src[n][what]}
\* functions a marker at line m concerns: up to the line that opens the body
Span(src, m) == {n \in m..Len(src) : \A k \in m..(n - 1) : ~src[k].brace}
NoLines(src) == Marked(src, "line")
NoBranches(src) == Marked(src, "line") \cup Marked(src, "br")
NoFunctions(src) == UNION {Span(src, m) : m \in Marked(src, "fn")}
Group(src, n) == LET S == {m \in Marked(src, "merge") : n \in Span(src, m)} IN IF S = {} THEN 0 ELSE CHOOSE m \in S : \A k \in S : k <= m
FileCov(report, f, src) ==
  LET L == {x \in LinesOf(report, f) : x[1] \notin NoLines(src)}
      F == {x \in FunctionsOf(report, f) : x[1][1] \notin NoFunctions(src)}
      B == {x \in BranchesOf(report, f) : x[1][1] \notin NoBranches(src)}
      G == Things({<<<<Group(src, x[1][1]), "">>, x[2]>> : x \in {y \in F : Group(src, y[1][1]) # 0}}) IN
  [lines |-> L, functions |-> {x \in F : Group(src, x[1][1]) = 0} \cup G, branches |-> B]
\* ---- counting; cov: a function from files
Covered(S) == Cardinality({x \in S : x[2]})
RECURSIVE SumOver(_)
SumOver(n) == IF DOMAIN n = {} THEN 0 ELSE LET f == CHOOSE x \in DOMAIN n : TRUE IN n[f] + SumOver([x \in DOMAIN n \ {f} |-> n[x]])
Count(cov, F, metric) == [covered |-> SumOver([f \in F |-> Covered(cov[f][metric])]), total |-> SumOver([f \in F |-> Cardinality(cov[f][metric])])]
\* percents in hundredths (-1: there is none), rounded either way at halves
PercentOk(h, c) == IF c.total = 0 THEN h = -1 ELSE LET d == (h * c.total) - (10000 * c.covered) IN 2 * (IF d < 0 THEN -d ELSE d) <= c.total
MetricOk(m, c) == m.covered = c.covered /\ m.total = c.total /\ PercentOk(m.percent, c)
Selected(files, policy) == {f \in files : MatchesAny(f, policy.include) /\ ~MatchesAny(f, policy.exclude)}
\* ---- minimums: [metric |-> hundredths], only some metrics
Over(base, own) == [m \in DOMAIN base \cup DOMAIN own |-> IF m \in DOMAIN own THEN own[m] ELSE base[m]]
Below(h, min) == h = -1 \/ h < min
Failing(percents, minimum) == {m \in DOMAIN minimum : Below(percents[m], minimum[m])}
Letter(m) == CASE m = "lines" -> "L" [] m = "functions" -> "F" [] OTHER -> "B"
RECURSIVE Slashed(_)
Slashed(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN Letter(s[1]) ELSE Letter(s[1]) \o "/" \o Slashed(Tail(s))
Status(percents, minimum, target) ==
  LET Pick(P(_)) == SelectSeq(Metrics, P)
      none(m) == m \in DOMAIN minimum /\ percents[m] = -1
      fail(m) == m \in DOMAIN minimum /\ percents[m] # -1 /\ percents[m] < minimum[m]
      low(m) == m \in DOMAIN minimum /\ percents[m] # -1 /\ percents[m] >= minimum[m] /\ m \in DOMAIN target /\ percents[m] < target[m]
      N == Pick(none) F == Pick(fail) L == Pick(low)
      a == IF N = <<>> THEN "" ELSE "NO DATA: " \o Slashed(N)
      b == IF F = <<>> THEN "" ELSE "FAIL: " \o Slashed(F)
      c == IF L = <<>> THEN "" ELSE "LOW: " \o Slashed(L)
      J(x, y) == IF x = "" THEN y ELSE IF y = "" THEN x ELSE x \o "; " \o y
      all == J(J(a, b), c) IN
  IF DOMAIN minimum = {} THEN "N/A" ELSE IF all = "" THEN "OK" ELSE "**" \o all \o "**"
\* ---- changed lines: a function from files to sets of lines
InPatch(cov, changed) == [f \in DOMAIN cov |-> LET C == IF f \in DOMAIN changed THEN changed[f] ELSE {} IN
                           [lines |-> {x \in cov[f].lines : x[1] \in C}, functions |-> {}, branches |-> {x \in cov[f].branches : x[1][1] \in C}]]
UncoveredAt(pc, metric) == {<<f, n>> \in UNION {{<<f, IF metric = "lines" THEN x[1] ELSE x[1][1]>> : x \in {y \in pc[f][metric] : ~y[2]}} : f \in DOMAIN pc} : TRUE}
\* ---- grouping of records for the detailed report: category of each, 0 if it has no place or several
Place(f, cats) == LET S == {i \in 1..Len(cats) : MatchesAny(f, cats[i])} IN IF Cardinality(S) = 1 THEN CHOOSE i \in S : TRUE ELSE 0
=============================================================================
