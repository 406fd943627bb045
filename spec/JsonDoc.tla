------------------------------ MODULE JsonDoc ------------------------------
(* JSON values and their edits.  A value is a record                        *)
(*   k: 0 null, 1 array, 2 bool, 3 number, 4 object, 5 string (the order in *)
(*      which values of different kinds compare)                            *)
(*   r: how a number is held, "i" signed, "u" unsigned, "d" double          *)
(*   q: the number in quarters, or 1 for true                               *)
(*   s: the bytes of a string, or the digits of a large number              *)
(*   c: elements, or the values of members                                  *)
(*   n: names of members, ascending                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Null == [k |-> 0, r |-> "", q |-> 0, s |-> <<>>, c |-> <<>>, n |-> <<>>]
EmptyArray == [Null EXCEPT !.k = 1]
EmptyObject == [Null EXCEPT !.k = 4]
Bool(b) == [Null EXCEPT !.k = 2, !.q = IF b THEN 1 ELSE 0]
Number(r, q) == [Null EXCEPT !.k = 3, !.r = r, !.q = q]
Text(s) == [Null EXCEPT !.k = 5, !.s = s]
IsContainer(v) == v.k \in {1, 4}

RECURSIVE CmpSeq(_, _)
CmpSeq(a, b) == IF a = <<>> THEN (IF b = <<>> THEN 0 ELSE -1)
                ELSE IF b = <<>> THEN 1
                ELSE IF a[1] < b[1] THEN -1 ELSE IF a[1] > b[1] THEN 1 ELSE CmpSeq(Tail(a), Tail(b))
Sign(x, y) == IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0
\* Numbers compare by value however they are held; large ones by their digits.
Minus == 45
Neg(s) == s # <<>> /\ s[1] = Minus
CmpDigits(a, b) == IF Len(a) # Len(b) THEN Sign(Len(a), Len(b)) ELSE CmpSeq(a, b)
CmpNum(a, b) ==
  IF a.s = <<>> /\ b.s = <<>> THEN Sign(a.q, b.q)
  ELSE IF a.s = <<>> THEN (IF Neg(b.s) THEN 1 ELSE -1)
  ELSE IF b.s = <<>> THEN (IF Neg(a.s) THEN -1 ELSE 1)
  ELSE IF Neg(a.s) # Neg(b.s) THEN (IF Neg(a.s) THEN -1 ELSE 1)
  ELSE IF Neg(a.s) THEN CmpDigits(Tail(b.s), Tail(a.s)) ELSE CmpDigits(a.s, b.s)
RECURSIVE Cmp(_, _), CmpElems(_, _), CmpMembers(_, _, _, _)
Cmp(a, b) == IF a.k # b.k THEN Sign(a.k, b.k)
             ELSE CASE a.k = 0 -> 0
                    [] a.k = 1 -> CmpElems(a.c, b.c)
                    [] a.k = 2 -> Sign(a.q, b.q)
                    [] a.k = 3 -> CmpNum(a, b)
                    [] a.k = 4 -> CmpMembers(a.n, a.c, b.n, b.c)
                    [] OTHER -> CmpSeq(a.s, b.s)
CmpElems(x, y) == IF x = <<>> THEN (IF y = <<>> THEN 0 ELSE -1)
                  ELSE IF y = <<>> THEN 1
                  ELSE LET c == Cmp(x[1], y[1]) IN IF c # 0 THEN c ELSE CmpElems(Tail(x), Tail(y))
CmpMembers(m, x, n, y) ==
  IF m = <<>> THEN (IF n = <<>> THEN 0 ELSE -1)
  ELSE IF n = <<>> THEN 1
  ELSE LET c == CmpSeq(m[1], n[1]) IN
       IF c # 0 THEN c
       ELSE LET d == Cmp(x[1], y[1]) IN IF d # 0 THEN d ELSE CmpMembers(Tail(m), Tail(x), Tail(n), Tail(y))

\* ---------------------------------------------------------------- parts
NameAt(v, n) == IF v.k = 4 /\ \E i \in 1..Len(v.n) : v.n[i] = n THEN CHOOSE i \in 1..Len(v.n) : v.n[i] = n ELSE 0
\* a step of a path: position i, or where i is 0, the name n
StepAt(v, st) == IF st.i = 0 THEN NameAt(v, st.n) ELSE IF v.k = 1 /\ st.i <= Len(v.c) THEN st.i ELSE 0
RECURSIVE PathOk(_, _), Part(_, _), With(_, _, _)
PathOk(v, p) == IF p = <<>> THEN TRUE
                ELSE LET i == StepAt(v, p[1]) IN IF i = 0 THEN FALSE ELSE PathOk(v.c[i], Tail(p))
Part(v, p) == IF p = <<>> THEN v ELSE Part(v.c[StepAt(v, p[1])], Tail(p))
With(v, p, x) == IF p = <<>> THEN x ELSE LET i == StepAt(v, p[1]) IN [v EXCEPT !.c[i] = With(@, Tail(p), x)]
IsPrefixOf(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

\* ---------------------------------------------------------------- edits of one value
\* made into an array or an object: only a null changes; FALSE where refused
CanBe(v, k) == v.k \in {0, k}
Made(v, k, s) == IF v.k # 0 THEN v ELSE CASE k = 1 -> EmptyArray [] k = 4 -> EmptyObject [] OTHER -> Text(s)
Before(v, n) == Cardinality({i \in 1..Len(v.n) : CmpSeq(v.n[i], n) < 0})
Insert(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
Without(s, from, to) == SubSeq(s, 1, from) \o SubSeq(s, to + 1, Len(s))     \* (from, to]
\* adds a member, or leaves the one there
Emplaced(v, n, x) == IF NameAt(v, n) > 0 THEN v
                     ELSE LET b == Before(v, n) IN [v EXCEPT !.n = Insert(@, b, n), !.c = Insert(@, b, x)]
Pushed(v, x) == [v EXCEPT !.c = Append(@, x)]
Popped(v) == [v EXCEPT !.c = SubSeq(@, 1, Len(@) - 1)]
Cut(v, from, to) == [v EXCEPT !.c = Without(@, from, to), !.n = IF v.k = 4 THEN Without(@, from, to) ELSE @]
Erased(v, n) == LET i == NameAt(v, n) IN IF i = 0 THEN v ELSE Cut(v, i - 1, i)
RECURSIVE ErasedAll(_, _)
ErasedAll(v, ns) == IF ns = <<>> THEN v ELSE ErasedAll(Erased(v, ns[1]), Tail(ns))
Cleared(v) == CASE v.k = 1 -> EmptyArray [] v.k = 4 -> EmptyObject [] OTHER -> Null
Resized(v, n, x) == [v EXCEPT !.c = [i \in 1..n |-> IF i <= Len(v.c) THEN v.c[i] ELSE x]]
SizeOf(v) == IF IsContainer(v) THEN Len(v.c) ELSE 0

\* ---------------------------------------------------------------- values as observed
\* A dumped object has its members in some order: brought into order.
RECURSIVE Ordered(_), Gather(_, _, _, _)
Gather(v, ns, cs, acc) == IF ns = <<>> THEN acc ELSE Gather(v, Tail(ns), Tail(cs), Emplaced(acc, ns[1], Ordered(cs[1])))
Ordered(v) == CASE v.k = 1 -> [v EXCEPT !.c = [i \in 1..Len(v.c) |-> Ordered(v.c[i])]]
                [] v.k = 4 -> IF Len(v.n) # Len(v.c) THEN Null
                              ELSE LET o == Gather(v, v.n, v.c, EmptyObject) IN
                                   IF Len(o.n) = Len(v.n) THEN o ELSE [Null EXCEPT !.k = 9]    \* a name twice
                [] OTHER -> v
\* the value of a type: how numbers of it are held
Held(t) == CASE t \in {"i8", "i16", "i32", "i64"} -> "i" [] t \in {"u8", "u16", "u32", "u64"} -> "u" [] t \in {"f32", "f64"} -> "d" [] OTHER -> ""
=============================================================================
