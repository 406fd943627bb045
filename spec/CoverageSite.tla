----------------------------- MODULE CoverageSite -----------------------------
(* The published coverage site: runs report in any order, late or again; for *)
(* each target the report of the newest run stays.  A run is <<created, id,  *)
(* attempt>>; created is a sequence of characters (times of one form).       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Targets, Runs
VARIABLES site,     \* target -> the run whose report is shown, or None
          seen      \* what was offered: set of <<target, run>>
None == <<>>
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
Older(a, b) == IF a[1] # b[1] THEN Less(a[1], b[1]) ELSE IF a[2] # b[2] THEN a[2] < b[2] ELSE a[3] < b[3]
\* a report offered again (the same run and attempt) takes the place of itself
Takes(new, old) == old = None \/ ~Older(new, old)
Init == site = [t \in Targets |-> None] /\ seen = {}
Publish(t, r) == site' = (IF Takes(r, site[t]) THEN [site EXCEPT ![t] = r] ELSE site) /\ seen' = seen \cup {<<t, r>>}
Next == \E t \in Targets, r \in Runs : Publish(t, r)
Spec == Init /\ [][Next]_<<site, seen>>
\* whatever the order, each target shows the newest of what was offered for it
Newest == \A t \in Targets : LET S == {p[2] : p \in {q \in seen : q[1] = t}} IN
            IF S = {} THEN site[t] = None ELSE site[t] \in S /\ \A r \in S : ~Older(site[t], r)
OnlyForward == [][\A t \in Targets : site[t] # None => site'[t] # None /\ ~Older(site'[t], site[t])]_<<site, seen>>
\* ---- the list: main, releases by version (newest first), requests by number
\* targets: <<"main">>, <<"tag", a, b, c>>, <<"pr", n>>
Rank(t) == CASE t[1] = "main" -> 1 [] t[1] = "tag" -> 2 [] OTHER -> 3
Before(a, b) == IF Rank(a) # Rank(b) THEN Rank(a) < Rank(b)
                ELSE LET k == CHOOSE i \in 2..Len(a) : a[i] # b[i] /\ \A j \in 2..(i - 1) : a[j] = b[j] IN a[k] > b[k]
ListOk(list, S) == /\ {list[i] : i \in 1..Len(list)} = S /\ Len(list) = Cardinality(S)
                   /\ \A i \in 1..(Len(list) - 1) : Before(list[i], list[i + 1])
\* ---- times: [y, mo, d, h, mi, s, off]: off in minutes east
RECURSIVE YearDays(_)
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthLen(y, m) == CASE m = 2 -> (IF Leap(y) THEN 29 ELSE 28) [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
YearDays(y) == IF y <= 2000 THEN 0 ELSE (IF Leap(y - 1) THEN 366 ELSE 365) + YearDays(y - 1)
RECURSIVE MonthDays(_, _)
MonthDays(y, m) == IF m = 1 THEN 0 ELSE MonthLen(y, m - 1) + MonthDays(y, m - 1)
Minutes(t) == (((YearDays(t[1]) + MonthDays(t[1], t[2]) + t[3]) * 24 + t[4]) * 60) + t[5] - t[7]
SameTime(a, b) == Minutes(a) = Minutes(b) /\ a[6] = b[6]
\* ---- the verdict of a report page: as the gate's, a row without a problem is OK
Metrics == <<"lines", "functions", "branches">>
Letters(m) == CASE m = "lines" -> "L" [] m = "functions" -> "F" [] OTHER -> "B"
RECURSIVE Slashed(_)
Slashed(s) == IF Len(s) = 1 THEN Letters(s[1]) ELSE Letters(s[1]) \o "/" \o Slashed(Tail(s))
Verdict(pc, minimum, target) ==
  LET fail(m) == m \in DOMAIN minimum /\ (pc[m] = -1 \/ pc[m] < minimum[m])
      low(m) == m \in DOMAIN minimum /\ ~fail(m) /\ m \in DOMAIN target /\ pc[m] < target[m]
      F == SelectSeq(Metrics, fail) L == SelectSeq(Metrics, low) IN
  IF F # <<>> THEN "FAIL: " \o Slashed(F) ELSE IF L # <<>> THEN "LOW: " \o Slashed(L) ELSE "OK"
=============================================================================
