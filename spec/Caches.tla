------------------------------- MODULE Caches -------------------------------
(* A cache store that grows, and cleanups that expire all but the newest    *)
(* entry whose key has a prefix.  Times are texts: date and time of day in   *)
(* UTC, with or without a fraction of the second, then a 'Z'.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys, Times, Prefixes
VARIABLES store, last
vars == <<store, last>>
HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
\* what the text of a time says: without the 'Z' and without the end of the fraction that says nothing
RECURSIVE NoZeros(_)
NoZeros(t) == IF t = <<>> THEN t ELSE IF t[Len(t)] = 48 THEN NoZeros(SubSeq(t, 1, Len(t) - 1)) ELSE t
Instant(t) ==
  LET d == IF t # <<>> /\ t[Len(t)] = 90 THEN SubSeq(t, 1, Len(t) - 1) ELSE t
      n == NoZeros(d)
  IN IF \E i \in 1..Len(d) : d[i] = 46 THEN (IF n[Len(n)] = 46 THEN SubSeq(n, 1, Len(n) - 1) ELSE n) ELSE d
Earlier(a, b) == Less(Instant(a), Instant(b))
Matching(s, p) == {i \in 1..Len(s) : HasPrefix(s[i].key, p)}
Newest(s, p) == {i \in Matching(s, p) : \A j \in Matching(s, p) : ~Earlier(s[i].time, s[j].time)}
\* which sets of entries may be expired
MayExpire(s, p) == IF Matching(s, p) = {} THEN {{}} ELSE {Matching(s, p) \ {i} : i \in Newest(s, p)}
Add(k, t) == store' = Append(store, [key |-> k, time |-> t]) /\ last' = [done |-> FALSE]
Keep(s, X) == LET RECURSIVE K(_) K(i) == IF i > Len(s) THEN <<>> ELSE (IF i \in X THEN <<>> ELSE <<s[i]>>) \o K(i + 1) IN K(1)
Cleanup(p) == \E X \in MayExpire(store, p) : store' = Keep(store, X) /\ last' = [done |-> TRUE, p |-> p, before |-> store]
Init == store = <<>> /\ last = [done |-> FALSE]
Next == (Len(store) < 3 /\ \E k \in Keys : \E t \in Times : Add(k, t)) \/ \E p \in Prefixes : Cleanup(p)
Spec == Init /\ [][Next]_vars
\* promises: one entry of the prefix is left, no older than any; others are untouched
OneLeft == last.done => Cardinality(Matching(store, last.p)) = (IF Matching(last.before, last.p) = {} THEN 0 ELSE 1)
IsNewest == last.done => \A i \in Matching(store, last.p) : \A j \in Matching(last.before, last.p) : ~Earlier(store[i].time, last.before[j].time)
OthersStay == last.done => Keep(store, Matching(store, last.p)) = Keep(last.before, Matching(last.before, last.p))
=============================================================================
