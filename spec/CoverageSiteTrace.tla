-------------------------- MODULE CoverageSiteTrace --------------------------
(* Histories of the real site (its tools run as the publishing job runs     *)
(* them) replayed on CoverageSite.                                          *)
EXTENDS TraceBase, FiniteSets
NoSet == {}
VARIABLES site, seen, kept      \* kept: target -> what its report says besides the run
S == INSTANCE CoverageSite WITH Targets <- NoSet, Runs <- NoSet
vars == <<site, seen, kept, l>>
RunOf(r) == <<r.created, r.run, r.attempt>>
Cur(t) == IF t \in DOMAIN site THEN site[t] ELSE S!None
Set(f, t, x) == [u \in DOMAIN f \cup {t} |-> IF u = t THEN x ELSE f[u]]
Publish(r) ==
  LET takes == S!Takes(RunOf(r), Cur(r.target)) IN
  /\ Accept(r.takes = takes /\ r.code = 0)
  /\ site' = IF takes THEN Set(site, r.target, RunOf(r)) ELSE site
  /\ kept' = IF takes THEN Set(kept, r.target, r) ELSE kept
  /\ seen' = seen
\* the overview: one row each, in order, with the figures and sources of the report shown
RowOk(row, k) == /\ row.percent = k.percent
                 /\ row.links /\ (k.run # 0 => row.run = k.run /\ row.attempt = (IF k.attempt > 1 THEN k.attempt ELSE 1) /\ row.sha = k.sha /\ Len(row.time) = 7 /\ S!SameTime(row.time, k.completed))
                 /\ (k.run = 0 => row.run = 0 /\ row.sha = <<>> /\ row.time = <<>>)
SiteOk(r) == /\ r.code = 0 /\ S!ListOk([i \in 1..Len(r.rows) |-> r.rows[i].target], DOMAIN site)
             /\ \A i \in 1..Len(r.rows) : RowOk(r.rows[i], kept[r.rows[i].target])
             /\ r.empty = (DOMAIN site = {})
\* latest: of a heap of reports in any order
LatestOk(r) == LET T == {r.values[i].target : i \in 1..Len(r.values)} IN
   /\ Len(r.got) = Cardinality(T) /\ {r.got[i].target : i \in 1..Len(r.got)} = T
   /\ \A i \in 1..Len(r.got) : /\ \E j \in 1..Len(r.values) : r.values[j].target = r.got[i].target /\ RunOf(r.values[j]) = RunOf(r.got[i])
                               /\ \A j \in 1..Len(r.values) : r.values[j].target = r.got[i].target => ~S!Older(RunOf(r.got[i]), RunOf(r.values[j]))
PageOk(r) == /\ Len(r.rows) = Len(r.want)
             /\ \A i \in 1..Len(r.rows) : LET w == r.want[i] g == r.rows[i] v == S!Verdict(w.percent, w.minimum, w.target) IN
                  g.name = w.name /\ g.cells = w.cells /\ g.status = v /\ g.fail = (SubSeq(v, 1, IF Len(v) < 4 THEN Len(v) ELSE 4) = "FAIL")
             /\ r.patch = r.wantpatch /\ r.overview
Step == LET r == Trace[l] IN
  CASE r.op = "reset" -> Accept(TRUE) /\ site' = [t \in {} |-> 0] /\ kept' = [t \in {} |-> 0] /\ seen' = {}
    [] r.op = "publish" -> Publish(r)
    [] r.op = "site" -> Accept(SiteOk(r)) /\ UNCHANGED <<site, seen, kept>>
    [] r.op = "latest" -> Accept(LatestOk(r)) /\ UNCHANGED <<site, seen, kept>>
    [] r.op = "page" -> Accept(PageOk(r)) /\ UNCHANGED <<site, seen, kept>>
    [] OTHER -> Accept(FALSE) /\ UNCHANGED <<site, seen, kept>>
TraceInit == l = 1 /\ site = [t \in {} |-> 0] /\ kept = [t \in {} |-> 0] /\ seen = {}
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
