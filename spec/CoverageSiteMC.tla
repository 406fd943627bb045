---------------------------- MODULE CoverageSiteMC ----------------------------
EXTENDS CoverageSite
MCTargets == {<<"main">>, <<"tag", 0, 2, 0>>, <<"tag", 0, 10, 0>>, <<"pr", 9>>, <<"pr", 10>>}
MCTwo == {<<"main">>, <<"pr", 9>>}
MCRuns == {<<<<1>>, 5, 1>>, <<<<1>>, 5, 2>>, <<<<1>>, 6, 1>>, <<<<1, 0>>, 4, 1>>, <<<<2>>, 4, 1>>, <<<<2>>, 4, 3>>}
\* the order of runs and of targets is total
Total == /\ \A a, b \in Runs : (Older(a, b) /\ ~Older(b, a)) \/ (Older(b, a) /\ ~Older(a, b)) \/ a = b
         /\ \A a, b, c \in Runs : Older(a, b) /\ Older(b, c) => Older(a, c)
         /\ \A a, b \in MCTargets : a # b => Before(a, b) # Before(b, a)
         /\ \A S \in SUBSET MCTargets : Cardinality({l \in UNION {[1..Cardinality(S) -> S]} : ListOk(l, S)}) = 1
Clock == /\ SameTime(<<2024, 2, 29, 23, 30, 0, -60>>, <<2024, 3, 1, 0, 30, 0, 0>>) /\ SameTime(<<2026, 1, 1, 0, 0, 5, 120>>, <<2025, 12, 31, 22, 0, 5, 0>>)
         /\ ~SameTime(<<2025, 2, 28, 23, 30, 0, -60>>, <<2025, 2, 28, 0, 30, 0, 0>>)
Judge == \A f \in [{"lines", "branches"} -> {-1, 5, 7}] : \A g \in [{"lines"} -> {5, 6}] :
           LET pc == [m \in {"lines", "functions", "branches"} |-> IF m = "functions" THEN -1 ELSE f[m]] IN
           /\ Verdict(pc, [lines |-> 5], g) = (IF f["lines"] = -1 THEN "FAIL: L" ELSE IF f["lines"] < g["lines"] THEN "LOW: L" ELSE "OK")
           /\ Verdict(pc, [functions |-> 0], g) = "FAIL: F"
ASSUME Total /\ Clock /\ Judge
=============================================================================
