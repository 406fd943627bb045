---------------------------- MODULE BoundedSeq ----------------------------
(***************************************************************************)
(* Ideal bounded sequences: slot t holds a sequence v[t] of at most        *)
(* Cap(t) values.  Step(v, e) is the one transition relation of all        *)
(* operations: it yields whether the operation is carried out or refused,  *)
(* its result (an index, a value or -1) and the next state.  Positions are *)
(* 0-based.  A refused operation changes nothing.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS InitCaps, Values
VARIABLES v, caps               \* caps[t]: capacity of slot t, never changes
Slots == 1..Len(caps)

InsertAt(s, p, xs) == SubSeq(s, 1, p) \o xs \o SubSeq(s, p + 1, Len(s))
EraseAt(s, a, b) == SubSeq(s, 1, a) \o SubSeq(s, b + 1, Len(s))
Rep(n, x) == [i \in 1..n |-> x]
Put(s, p, x) == [s EXCEPT ![p + 1] = x]
LastIx(s) == Len(s) - 1

Done(w, t, s, ret) == [ok |-> TRUE, ret |-> ret, v |-> [w EXCEPT ![t] = s]]
No(w) == [ok |-> FALSE, ret |-> -1, v |-> w]
\* t becomes s if that fits, else the operation is refused
Fit(w, t, s, ret) == IF Len(s) <= caps[t] THEN Done(w, t, s, ret) ELSE No(w)
Step(w, e) ==
  LET t == e.t  s == w[t]  n == Len(s) IN
  CASE e.o \in {"push", "pushmove", "emplaceback"} -> Fit(w, t, Append(s, e.x), n)
    [] e.o = "pushself" -> Fit(w, t, Append(s, s[e.a + 1]), n)
    [] e.o = "pop" -> IF n = 0 THEN No(w) ELSE Done(w, t, SubSeq(s, 1, n - 1), -1)
    [] e.o = "clear" -> Done(w, t, <<>>, -1)
    [] e.o = "resize" -> Fit(w, t, IF e.n <= n THEN SubSeq(s, 1, e.n) ELSE s \o Rep(e.n - n, 0), -1)
    [] e.o = "reserve" -> IF e.n <= caps[t] THEN Done(w, t, s, -1) ELSE No(w)
    [] e.o \in {"insert", "insertmove", "emplace"} -> Fit(w, t, InsertAt(s, e.a, <<e.x>>), e.a)
    [] e.o \in {"insertself", "emplaceself"} -> Fit(w, t, InsertAt(s, e.a, <<s[e.b + 1]>>), e.a)
    [] e.o = "insertn" -> Fit(w, t, InsertAt(s, e.a, Rep(e.n, e.x)), e.a)
    [] e.o = "insertnself" -> Fit(w, t, InsertAt(s, e.a, Rep(e.n, s[e.b + 1])), e.a)
    [] e.o \in {"insertrange", "insertlist"} -> Fit(w, t, InsertAt(s, e.a, e.xs), e.a)
    [] e.o = "erase" -> Done(w, t, EraseAt(s, e.a, e.a + 1), e.a)
    [] e.o = "eraserange" -> Done(w, t, EraseAt(s, e.a, e.b), e.a)
    [] e.o = "assignn" -> Fit(w, t, Rep(e.n, e.x), -1)
    [] e.o \in {"assignrange", "assignlist", "make", "makelist"} -> Fit(w, t, e.xs, -1)
    [] e.o = "write" -> Done(w, t, Put(s, e.a, e.x), -1)
    [] e.o \in {"at", "index", "cat", "cindex"} -> IF e.a < n THEN Done(w, t, s, s[e.a + 1]) ELSE No(w)
    [] e.o \in {"copy", "copyctor", "convert", "convertctor"} -> Fit(w, t, w[e.s], -1)
    [] e.o \in {"move", "movector", "convertmove", "convertmovector"} ->
         IF Len(w[e.s]) > caps[t] THEN No(w) ELSE
         [ok |-> TRUE, ret |-> -1, v |-> IF e.s = t THEN w ELSE [w EXCEPT ![t] = w[e.s], ![e.s] = <<>>]]
    [] e.o = "swap" ->
         IF n > caps[e.s] \/ Len(w[e.s]) > caps[t] THEN No(w)
         ELSE [ok |-> TRUE, ret |-> -1, v |-> [w EXCEPT ![t] = w[e.s], ![e.s] = s]]
    [] OTHER -> Assert(FALSE, <<"unknown operation", e>>)

\* lexicographic order
RECURSIVE CmpSeq(_, _)
CmpSeq(a, b) == IF a = <<>> THEN (IF b = <<>> THEN 0 ELSE -1) ELSE IF b = <<>> THEN 1
                ELSE IF Head(a) < Head(b) THEN -1 ELSE IF Head(a) > Head(b) THEN 1 ELSE CmpSeq(Tail(a), Tail(b))

\* ---------------------------------------------------------------- machine
Init == caps = InitCaps /\ v = [t \in Slots |-> <<>>]
Ops(t) ==
  LET n == Len(v[t]) P == 0..n I == 0..(n - 1) IN
       [o : {"push"}, t : {t}, x : Values] \cup [o : {"pop", "clear"}, t : {t}]
  \cup [o : {"pushself"}, t : {t}, a : I]
  \cup [o : {"resize", "reserve"}, t : {t}, n : 0..(caps[t] + 1)]
  \cup [o : {"insert"}, t : {t}, a : P, x : Values] \cup [o : {"insertself"}, t : {t}, a : P, b : I]
  \cup [o : {"insertn"}, t : {t}, a : P, n : 0..2, x : Values]
  \cup [o : {"insertrange"}, t : {t}, a : P, xs : {<<x, y>> : x, y \in Values}]
  \cup [o : {"erase"}, t : {t}, a : I] \cup {[o |-> "eraserange", t |-> t, a |-> ab[1], b |-> ab[2]] : ab \in {q \in P \X P : q[1] <= q[2]}}
  \cup [o : {"assignn"}, t : {t}, n : 0..(caps[t] + 1), x : Values]
  \cup [o : {"write"}, t : {t}, a : I, x : Values] \cup [o : {"at"}, t : {t}, a : P]
  \cup [o : {"copy", "move", "swap"}, t : {t}, s : Slots]
Next == UNCHANGED caps /\ \E t \in Slots : \E e \in Ops(t) : v' = Step(v, e).v
Spec == Init /\ [][Next]_<<v, caps>>

WithinCapacity == \A t \in Slots : Len(v[t]) <= caps[t]
TypeOK == \A t \in Slots : \A i \in 1..Len(v[t]) : v[t][i] \in Values \cup {0}
\* refused operations change nothing, a slot that is not involved never changes,
\* and insertion is undone by erasure
Frame == \A t \in Slots : \A e \in Ops(t) :
           LET r == Step(v, e) IN
           /\ ~r.ok => r.v = v
           /\ \A u \in Slots \ {t} : (e.o \notin {"move", "swap"} \/ e.s # u) => r.v[u] = v[u]
           /\ (r.ok /\ e.o = "insertn") => Step(r.v, [o |-> "eraserange", t |-> t, a |-> e.a, b |-> e.a + e.n]).v = v
           /\ (r.ok /\ e.o = "swap") => Step(r.v, e).v = v
\* the order is total and consistent with equality
Total == \A a, b \in Slots : /\ CmpSeq(v[a], v[b]) = -CmpSeq(v[b], v[a])
                             /\ (CmpSeq(v[a], v[b]) = 0) = (v[a] = v[b])
=============================================================================
