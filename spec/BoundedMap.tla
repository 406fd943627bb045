---------------------------- MODULE BoundedMap ----------------------------
(***************************************************************************)
(* Ideal bounded sorted maps (and sets, whose values are all 0): slot t    *)
(* holds a sequence m[t] of at most caps[t] pairs <<key, value>>, strictly *)
(* ascending by key times sg[t]: the comparator of the slot.               *)
(* Step(m, e) is the one transition relation of all operations.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS InitCaps, InitSg, Keys, Values
VARIABLES m, caps, sg
Slots == 1..Len(caps)
Before(t, a, b) == sg[t] * a < sg[t] * b
\* 0-based number of elements before key k, and up to k
Lb(t, s, k) == Cardinality({i \in 1..Len(s) : Before(t, s[i][1], k)})
Ub(t, s, k) == Cardinality({i \in 1..Len(s) : ~Before(t, k, s[i][1])})
Has(t, s, k) == \E i \in 1..Len(s) : s[i][1] = k
At(s, k) == s[CHOOSE i \in 1..Len(s) : s[i][1] = k][2]
PutAt(s, p, x) == SubSeq(s, 1, p) \o <<x>> \o SubSeq(s, p + 1, Len(s))
EraseAt(s, a, b) == SubSeq(s, 1, a) \o SubSeq(s, b + 1, Len(s))

Done(w, t, s, ret) == [ok |-> TRUE, ret |-> ret, m |-> [w EXCEPT ![t] = s]]
No(w) == [ok |-> FALSE, ret |-> <<>>, m |-> w]
\* insertion of a key that is not there yet, or what to do if it is
Ins(w, t, k, x, there) ==
  LET s == w[t] p == Lb(t, s, k) IN
  IF Has(t, s, k) THEN [ok |-> TRUE, ret |-> <<p, 0>>, m |-> [w EXCEPT ![t] = [s EXCEPT ![p + 1] = <<k, there>>]]]
  ELSE IF Len(s) < caps[t] THEN Done(w, t, PutAt(s, p, <<k, x>>), <<p, 1>>)
  ELSE No(w)
Keep(w, t, k, x) == Ins(w, t, k, x, IF Has(t, w[t], k) THEN At(w[t], k) ELSE 0)
\* one after the other; what comes after a refusal is not inserted
All(w, t, es) == FoldLeft(LAMBDA r, e : IF ~r.ok THEN r ELSE LET q == Keep(r.m, t, e[1], e[2]) IN [ok |-> q.ok, ret |-> <<>>, m |-> q.m],
                          [ok |-> TRUE, ret |-> <<>>, m |-> w], es)
Fresh(w, t, es) == LET r == All([w EXCEPT ![t] = <<>>], t, es) IN IF r.ok THEN r ELSE No(w)
PairUp(ks, xs) == [i \in 1..Len(ks) |-> <<ks[i], xs[i]>>]
Step(w, e) ==
  LET t == e.t s == w[t] n == Len(s) IN
  CASE e.o \in {"emplace", "insert", "insertmove", "tryemplace", "tryemplacemove"} -> Keep(w, t, e.k, e.x)
    [] e.o \in {"assign", "assignmove"} -> Ins(w, t, e.k, e.x, e.x)
    \* the value is the one of own element b, the key is the one of own element a if k is 0
    [] e.o \in {"emplaceown", "tryemplaceown"} -> Keep(w, t, IF e.k = 0 THEN s[e.a + 1][1] ELSE e.k, s[e.b + 1][2])
    [] e.o = "insertown" -> Keep(w, t, s[e.b + 1][1], s[e.b + 1][2])
    [] e.o = "assignown" -> Ins(w, t, IF e.k = 0 THEN s[e.a + 1][1] ELSE e.k, s[e.b + 1][2], s[e.b + 1][2])
    [] e.o \in {"index", "indexmove"} ->
         LET r == Keep(w, t, e.k, 0) IN IF r.ok THEN [r EXCEPT !.ret = <<At(r.m[t], e.k)>>] ELSE r
    [] e.o = "indexset" -> LET r == Ins(w, t, e.k, e.x, e.x) IN [r EXCEPT !.ret = <<>>]
    [] e.o = "atset" -> IF Has(t, s, e.k) THEN Done(w, t, Ins(w, t, e.k, e.x, e.x).m[t], <<>>) ELSE No(w)
    [] e.o = "write" -> Done(w, t, [s EXCEPT ![e.a + 1] = <<@[1], e.x>>], <<>>)
    [] e.o \in {"erasekey", "eraseforeign"} -> Done(w, t, EraseAt(s, Lb(t, s, e.k), Ub(t, s, e.k)), <<IF Has(t, s, e.k) THEN 1 ELSE 0>>)
    [] e.o = "eraseown" -> Done(w, t, EraseAt(s, e.a, e.a + 1), <<1>>)
    [] e.o \in {"erase", "erasec"} -> Done(w, t, EraseAt(s, e.a, e.a + 1), <<e.a>>)
    [] e.o \in {"eraserange", "eraserangec"} -> Done(w, t, EraseAt(s, e.a, e.b), <<e.a>>)
    [] e.o = "clear" -> Done(w, t, <<>>, <<>>)
    [] e.o \in {"atindex", "atindexc"} -> IF e.a < n THEN Done(w, t, s, s[e.a + 1]) ELSE No(w)
    [] e.o = "insertrange" -> All(w, t, PairUp(e.ks, e.xs))
    [] e.o \in {"make", "makelist", "makeargs", "assignlist"} -> Fresh(w, t, PairUp(e.ks, e.xs))
    [] e.o \in {"copy", "copyctor", "convert", "convertctor"} -> Fresh(w, t, w[e.s])
    [] e.o \in {"move", "movector", "convertmove", "convertmovector"} ->
         IF e.s = t THEN Done(w, t, s, <<>>)
         ELSE LET r == Fresh(w, t, w[e.s]) IN IF r.ok THEN [r EXCEPT !.m = [@ EXCEPT ![e.s] = <<>>]] ELSE r
    [] e.o = "swap" -> [ok |-> TRUE, ret |-> <<>>, m |-> [w EXCEPT ![t] = w[e.s], ![e.s] = s]]
    [] OTHER -> Assert(FALSE, <<"unknown operation", e>>)
\* everything a lookup of k can tell: position or -1, found position or size, membership, bounds,
\* equal range, count, and the value (a sequence, empty if there is none)
Query(t, s, k) ==
  LET l == Lb(t, s, k) u == Ub(t, s, k) h == Has(t, s, k) IN
  <<IF h THEN l ELSE -1, IF h THEN l ELSE Len(s), IF h THEN 1 ELSE 0, l, u, l, u, u - l>>

RECURSIVE CmpPairs(_, _)
CmpPairs(a, b) ==
  IF a = <<>> THEN (IF b = <<>> THEN 0 ELSE -1) ELSE IF b = <<>> THEN 1 ELSE
  LET x == Head(a) y == Head(b) IN
  IF x[1] < y[1] THEN -1 ELSE IF x[1] > y[1] THEN 1 ELSE IF x[2] < y[2] THEN -1 ELSE IF x[2] > y[2] THEN 1 ELSE CmpPairs(Tail(a), Tail(b))

\* ---------------------------------------------------------------- machine
Init == caps = InitCaps /\ sg = InitSg /\ m = [t \in Slots |-> <<>>]
Ops(t) ==
  LET n == Len(m[t]) P == 0..n I == 0..(n - 1) IN
       [o : {"emplace", "assign", "indexset", "atset"}, t : {t}, k : Keys, x : Values]
  \cup [o : {"emplaceown", "assignown"}, t : {t}, k : Keys, a : {0}, b : I] \cup [o : {"insertown"}, t : {t}, b : I]
  \cup [o : {"index", "erasekey"}, t : {t}, k : Keys] \cup [o : {"write"}, t : {t}, a : I, x : Values]
  \cup [o : {"erase", "eraseown", "atindex"}, t : {t}, a : I]
  \cup {[o |-> "eraserange", t |-> t, a |-> ab[1], b |-> ab[2]] : ab \in {q \in P \X P : q[1] <= q[2]}}
  \cup [o : {"clear"}, t : {t}]
  \cup [o : {"insertrange", "make"}, t : {t}, ks : {<<x, y>> : x, y \in Keys}, xs : {<<x, x>> : x \in Values}]
  \cup [o : {"copy", "move"}, t : {t}, s : Slots] \cup [o : {"swap"}, t : {t}, s : {u \in Slots : caps[u] = caps[t] /\ sg[u] = sg[t]}]
Next == UNCHANGED <<caps, sg>> /\ \E t \in Slots : \E e \in Ops(t) : m' = Step(m, e).m
Spec == Init /\ [][Next]_<<m, caps, sg>>

Sorted(t, s) == \A i \in 1..(Len(s) - 1) : Before(t, s[i][1], s[i + 1][1])
WellFormed == \A t \in Slots : Len(m[t]) <= caps[t] /\ Sorted(t, m[t])
\* as a set of pairs, with the ideal effect of each operation
Pairs(s) == {s[i] : i \in 1..Len(s)}
Others(s, k) == {p \in Pairs(s) : p[1] # k}
Ideal == \A t \in Slots : \A e \in Ops(t) :
  LET r == Step(m, e) s == m[t] u == r.m[t] IN
  /\ (~r.ok /\ e.o # "insertrange") => r.m = m
  /\ (r.ok /\ e.o = "emplace") => Pairs(u) = Pairs(s) \cup (IF Has(t, s, e.k) THEN {} ELSE {<<e.k, e.x>>})
  /\ (r.ok /\ e.o \in {"assign", "indexset", "atset"}) => Pairs(u) = Others(s, e.k) \cup {<<e.k, e.x>>}
  /\ (r.ok /\ e.o = "erasekey") => Pairs(u) = Others(s, e.k) /\ r.ret[1] = Len(s) - Len(u)
  /\ (~r.ok /\ e.o \in {"emplace", "assign", "index"}) => Len(s) = caps[t] /\ ~Has(t, s, e.k)
  /\ (r.ok /\ e.o = "copy") => Pairs(u) = Pairs(m[e.s])
Lookups == \A t \in Slots : \A k \in Keys \cup {0} :
  LET s == m[t] q == Query(t, s, k) IN
  /\ \A i \in 1..Len(s) : (i <= q[4] => Before(t, s[i][1], k)) /\ (i > q[4] => ~Before(t, s[i][1], k))
                          /\ (i <= q[5] => ~Before(t, k, s[i][1])) /\ (i > q[5] => Before(t, k, s[i][1]))
  /\ q[3] = q[8] /\ (q[3] = 1) = (q[1] >= 0) /\ (q[1] >= 0 => s[q[1] + 1][1] = k)
=============================================================================
