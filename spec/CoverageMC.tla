----------------------------- MODULE CoverageMC -----------------------------
(* Reports grow record by record; what is covered stays covered, order and  *)
(* repetition do not count, and the gate fails exactly below the minimum.   *)
EXTENDS Coverage
VARIABLES report
Files == {<<1>>, <<2>>}
Src == <<[line |-> FALSE, br |-> FALSE, fn |-> FALSE, merge |-> TRUE, brace |-> FALSE], [line |-> TRUE, br |-> FALSE, fn |-> FALSE, merge |-> FALSE, brace |-> TRUE],
         [line |-> FALSE, br |-> TRUE, fn |-> TRUE, merge |-> FALSE, brace |-> TRUE], [line |-> FALSE, br |-> FALSE, fn |-> FALSE, merge |-> FALSE, brace |-> TRUE]>>
Records == {[file |-> f, da |-> da, fn |-> <<<<1, "a">>, <<2, "b">>, <<4, "c">>>>, fnda |-> fd, brda |-> bd] :
              f \in Files, da \in {<<>>, <<<<1, 0>>>>, <<<<1, 2>>, <<2, 0>>, <<4, 0>>>>, <<<<4, 1>>>>},
              fd \in {<<>>, <<<<0, "a">>, <<1, "b">>>>, <<<<1, "c">>>>, <<<<0, "c">>, <<0, "x">>>>},
              bd \in {<<>>, <<<<3, 0, 0, 1>>>>, <<<<4, 0, 0, 0>>, <<4, 0, 1, 1>>>>, <<<<4, 0, 0, 3>>>>}}
Init == report = <<>>
Next == Len(report) < 2 /\ \E r \in Records : report' = Append(report, r)
Spec == Init /\ [][Next]_report
C(rep) == [f \in Files |-> FileCov(rep, f, Src)]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
OrderFree == C(report) = C(Rev(report)) /\ C(report) = C(report \o report)
Grows == \A f \in Files : \A m \in Range(Metrics) : LET a == C(SubSeq(report, 1, IF report = <<>> THEN 0 ELSE 1))[f][m] b == C(report)[f][m] IN
           {x[1] : x \in a} \subseteq {x[1] : x \in b} /\ {x[1] : x \in {y \in a : y[2]}} \subseteq {x[1] : x \in {y \in b : y[2]}}
Unmarked == \A f \in Files : LET c == C(report)[f] IN /\ \A x \in c.lines : x[1] # 2
                                                      /\ \A x \in c.branches : x[1][1] \notin {2, 3}
                                                      /\ \A x \in c.functions : x[1][1] # 3
                                                      /\ Cardinality({x \in c.functions : x[1][1] \in {1, 2}}) <= 1
Sums == \A m \in Range(Metrics) : LET t == Count(C(report), Files, m) IN t.covered <= t.total
GateIsMinimum == \A c \in 0..7 : \A t \in 1..7 : \A min \in {0, 5000, 3333, 10000} : c <= t =>
                   LET h == ((20000 * c) + t) \div (2 * t) IN PercentOk(h, [covered |-> c, total |-> t]) /\ (Failing([lines |-> h], [lines |-> min]) = {}) = (h >= min)
=============================================================================
