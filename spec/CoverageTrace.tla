---------------------------- MODULE CoverageTrace ----------------------------
(* Runs of the real coverage tools judged by Coverage.                      *)
EXTENDS TraceBase, Coverage
\* files: [name, src]; sources that do not exist have no lines
SrcOf(r, f) == LET S == {i \in 1..Len(r.sources) : r.sources[i].name = f} IN IF S = {} THEN <<>> ELSE r.sources[CHOOSE i \in S : TRUE].src
CovOf(r) == LET F == Selected({r.report[i].file : i \in 1..Len(r.report)} \ {<<>>}, r.policy) IN TLCEval([f \in F |-> TLCEval(FileCov(r.report, f, SrcOf(r, f)))])
Row(r, i) == r.rows[i]
RowFiles(r, cov, i) == IF i = 1 THEN DOMAIN cov ELSE {f \in DOMAIN cov : MatchesAny(f, r.policy.categories[i - 1].include)}
MinOf(r, i) == IF i = 1 THEN r.policy.minimum ELSE Over(r.policy.minimum, r.policy.categories[i - 1].minimum)
Percents(row) == [m \in Range(Metrics) |-> row[m].percent]
GateOk(r) ==
  LET cov == CovOf(r)
      n == Len(r.policy.categories) + 1
      bad == UNION {{<<i, m>> : m \in Failing(Percents(r.rows[i]), MinOf(r, i))} : i \in 1..n} IN
  IF DOMAIN cov = {} THEN r.code = 2 /\ r.rows = <<>>
  ELSE /\ Len(r.rows) = n
       /\ \A i \in 1..n : /\ \A m \in Range(Metrics) : MetricOk(r.rows[i][m], Count(cov, RowFiles(r, cov, i), m))
                          /\ r.rows[i].status = Status(Percents(r.rows[i]), MinOf(r, i), r.policy.minimum)
                          /\ r.rows[i].shown
       /\ {<<x.row, x.metric>> : x \in Range(r.failed)} = bad /\ Len(r.failed) = Cardinality(bad)
       /\ r.agree
       /\ IF ~r.patched THEN r.code = (IF bad = {} THEN 0 ELSE 1) /\ ~r.haspatch
          ELSE LET ch == [f \in {r.changed[k].file : k \in 1..Len(r.changed)} |-> UNION {Range(r.changed[k].lines) : k \in {j \in 1..Len(r.changed) : r.changed[j].file = f}}]
                   pc == TLCEval(InPatch(cov, ch))
                   P(m) == Count(pc, DOMAIN pc, m)
                   any == P("lines").total + P("branches").total > 0
                   pm == r.policy.patch
                   pbad == {m \in {"lines", "branches"} : P(m).total > 0 /\ m \in DOMAIN pm /\ r.patch[m].percent < pm[m]} IN
               /\ r.haspatch = any
               /\ any => \A m \in {"lines", "branches"} : MetricOk(r.patch[m], P(m))
               /\ any => Range(r.patchfailed) = pbad /\ Len(r.patchfailed) = Cardinality(pbad)
               /\ LET un(m) == {<<x.file, x.line>> : x \in {y \in Range(r.uncovered) : y.metric = m}} IN
                  IF any /\ pbad # {} THEN un("lines") = UncoveredAt(pc, "lines") /\ un("branches") = UncoveredAt(pc, "branches")
                  ELSE r.uncovered = <<>>
               /\ r.code = (IF bad = {} /\ (~any \/ pbad = {}) THEN 0 ELSE 1)
\* grouping: the records with data that are selected, in order, each below its one category
GroupOk(r) ==
  LET I == SelectSeq([i \in 1..Len(r.records) |-> i], LAMBDA i : r.records[i].data /\ MatchesAny(r.records[i].file, r.policy.include) /\ ~MatchesAny(r.records[i].file, r.policy.exclude))
      cats == [i \in 1..Len(r.policy.categories) |-> r.policy.categories[i].include]
      places == [k \in 1..Len(I) |-> Place(r.records[I[k]].file, cats)] IN
  IF \E k \in 1..Len(I) : places[k] = 0 THEN r.refused
  ELSE /\ ~r.refused /\ Len(r.got) = Len(I)
       /\ \A k \in 1..Len(I) : r.got[k].record = I[k] /\ r.got[k].category = places[k] /\ r.got[k].links /\ r.got[k].same
CallOk(r) == CASE r.op = "gate" -> GateOk(r) [] r.op = "group" -> GroupOk(r) [] OTHER -> FALSE
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Accept(CallOk(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
