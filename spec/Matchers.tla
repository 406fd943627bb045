------------------------------ MODULE Matchers ------------------------------
(* Matchers of tests as terms, and the values each of them accepts.          *)
(* Values: numbers and byte texts themselves; a container [cap, s]; a status *)
(* [code, msg, pays] (pays: <<url, content>> each); a status or a value      *)
(* [st, value].                                                              *)
EXTENDS Indents
Transform(f, by, v) == CASE f = 0 -> v + by [] f = 1 -> v * by [] f = 2 -> -v [] OTHER -> IF v = by THEN 1 ELSE 0
Keyed(ps) == SortSeq(ps, LAMBDA a, b : a[1] # b[1] /\ LET n == {i \in 1..Min2(Len(a[1]), Len(b[1])) : a[1][i] # b[1][i]}
                                                  IN IF n = {} THEN Len(a[1]) < Len(b[1]) ELSE a[1][Min(n)] < b[1][Min(n)])
StatusOf(v) == IF "st" \in DOMAIN v THEN v.st ELSE v
RECURSIVE Holds(_, _)
Holds(t, v) ==
  CASE t.k = "true" -> TRUE
    [] t.k = "eq" -> v = t.v
    [] t.k = "le" -> v <= t.v
    [] t.k = "ge" -> v >= t.v
    [] t.k = "substr" -> HasSub(v, t.s)
    \* compositions
    [] t.k = "not" -> ~Holds(t.m, v)
    [] t.k = "all" -> \A i \in 1..Len(t.ms) : Holds(t.ms[i], v)
    [] t.k = "any" -> \E i \in 1..Len(t.ms) : Holds(t.ms[i], v)
    \* being one of the elements, keys or values of a container
    [] t.k = "elem" -> \E i \in 1..Len(t.s) : t.s[i] = v
    [] t.k = "key" -> \E i \in 1..Len(t.s) : t.s[i][1] = v
    [] t.k = "value" -> \E i \in 1..Len(t.s) : t.s[i][2] = v
    \* containers
    [] t.k = "capacity" -> Holds(t.m, v.cap)
    [] t.k = "elements" -> v.s = t.s
    [] t.k = "contains" -> \E i \in 1..Len(v.s) : Holds(t.m, v.s[i])
    [] t.k = "each" -> \A i \in 1..Len(v.s) : Holds(t.m, v.s[i])
    [] t.k = "size" -> Holds(t.m, Len(v.s))
    [] t.k = "when" -> Holds(t.m, [cap |-> 0, s |-> [i \in 1..Len(v.s) |-> Transform(t.f, t.by, v.s[i])]])
    \* texts
    [] t.k = "text" -> v = t.s
    [] t.k = "dropped" -> v = Dropped(t.s)
    \* statuses; one that is OK has neither message nor payload
    [] t.k = "isok" -> StatusOf(v).code = 0
    [] t.k = "holds" -> v.st.code = 0 /\ Holds(t.m, v.value)
    [] t.k = "is" -> LET st == StatusOf(v) IN Holds(t.c, st.code) /\ (st.code = 0 \/ Holds(t.m, st.msg))
    [] t.k = "payload" -> LET st == StatusOf(v) IN st.code # 0 /\ Len(st.pays) > 0
    [] t.k = "url" -> LET st == StatusOf(v) IN st.code # 0 /\ \E i \in 1..Len(st.pays) : st.pays[i][1] = t.url
    [] t.k = "urlm" -> LET st == StatusOf(v) IN st.code # 0 /\ \E i \in 1..Len(st.pays) : st.pays[i][1] = t.url /\ Holds(t.m, st.pays[i][2])
    [] t.k = "payloads" -> LET st == StatusOf(v) IN Holds(t.m, [cap |-> 0, s |-> IF st.code = 0 THEN <<>> ELSE Keyed(st.pays)])
\* ------------------------------------------------------------- what is said
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<48 + n>> ELSE Append(DigitsOf(n \div 10), 48 + (n % 10))
NumText(n) == IF n < 0 THEN <<45>> \o DigitsOf(-n) ELSE DigitsOf(n)
Candidates(t) == CASE t.k = "elem" -> t.s [] t.k = "key" -> [i \in 1..Len(t.s) |-> t.s[i][1]] [] t.k = "value" -> [i \in 1..Len(t.s) |-> t.s[i][2]]
Members == {"elem", "key", "value"}
\* "{1, 2}"
Listed(s) == <<123>> \o JoinSeq([i \in 1..Len(s) |-> NumText(s[i])], <<44, 32>>) \o <<125>>
\* the first element equal to v, counted from 0
FirstAt(s, v) == Min({i \in 1..Len(s) : s[i] = v}) - 1
\* ---------------------------------------------- the macros that assert things
\* forms of a step: 0, 1, 8: expect OK; the others assert it, and 4, 5, 10 add the value (100 + i),
\* 6, 7 both parts of a pair (i and 200 + i).  Every step that is passed adds one.
Expects == {0, 1, 8}
Adds(form, i) == CASE form \in {4, 5, 10} -> 100 + i [] form \in {6, 7} -> 200 + 2 * i [] OTHER -> 0
RECURSIVE Ran(_, _, _)
Ran(steps, i, r) ==
  IF i > Len(steps) THEN r
  ELSE LET form == steps[i][1] bad == steps[i][2] # 0 q == [r EXCEPT !.log = Append(@, i - 1)] IN
       IF bad /\ form \notin Expects THEN [q EXCEPT !.hard = @ + 1]
       ELSE Ran(steps, i + 1, [q EXCEPT !.soft = @ + (IF bad THEN 1 ELSE 0), !.sum = @ + 1 + Adds(form, i - 1)])
RunAll(steps) == Ran(steps, 1, [log |-> <<>>, sum |-> 0, soft |-> 0, hard |-> 0])
=============================================================================
