---------------------------- MODULE MatchersMC ----------------------------
(* What follows from the matchers: laws between them over all small values,  *)
(* and the macros step by step.                                              *)
EXTENDS Matchers
CONSTANTS MaxSteps
VARIABLES v, steps, at, r
vars == <<v, steps, at, r>>
Texts == {<<>>, <<97>>, <<10, 32, 97>>, <<32, 97>>, <<97, 10, 32>>, <<10, 32, 97, 10, 32, 32, 98>>}
Urls == {<<117>>, <<118>>}
PaySeqs == {<<>>} \cup {<<<<u, t>>>> : u \in Urls, t \in {<<>>, <<97>>}} \cup {<<<<a, <<97>>>>, <<b, <<>>>>>> : a \in Urls, b \in Urls}
Sts == {[code |-> c, msg |-> m, pays |-> p] : c \in 0..2, m \in {<<>>, <<97>>}, p \in {q \in PaySeqs : \A i, j \in 1..Len(q) : i # j => q[i][1] # q[j][1]}}
Good == {s \in Sts : s.code = 0 => s.msg = <<>> /\ s.pays = <<>>}
Seqs == UNION {[1..n -> 0..2] : n \in 0..3}
T(k) == [k |-> k]
Eq(x) == [k |-> "eq", v |-> x]
Not_(m) == [k |-> "not", m |-> m]
Laws ==
  /\ \A s \in Good :
       /\ Holds(T("isok"), s) = Holds([k |-> "is", c |-> Eq(0), m |-> T("true")], s)
       /\ \A m \in {T("true"), Eq(<<97>>), Not_(T("true"))} : Holds([k |-> "is", c |-> Eq(0), m |-> m], s) = (s.code = 0)
       /\ Holds(T("payload"), s) = Holds([k |-> "payloads", m |-> [k |-> "size", m |-> [k |-> "ge", v |-> 1]]], s)
       /\ Holds(T("payload"), s) = (\E u \in Urls : Holds([k |-> "url", url |-> u], s))
       /\ \A u \in Urls : Holds([k |-> "url", url |-> u], s) = Holds([k |-> "urlm", url |-> u, m |-> T("true")], s)
       /\ \A u \in Urls : Holds([k |-> "urlm", url |-> u, m |-> Eq(<<97>>)], s) => ~Holds([k |-> "urlm", url |-> u, m |-> Eq(<<>>)], s)
       /\ Holds(T("isok"), s) => ~Holds(T("payload"), s)
       /\ \A x \in 0..2 : Holds([k |-> "holds", m |-> T("true")], [st |-> s, value |-> x]) = Holds(T("isok"), [st |-> s, value |-> x])
       /\ \A a, b \in Good : Keyed(a.pays) = Keyed(b.pays) => {a.pays[i] : i \in 1..Len(a.pays)} = {b.pays[i] : i \in 1..Len(b.pays)}
  /\ \A s \in Seqs : LET c == [cap |-> 3, s |-> s] IN
       /\ \A x \in 0..2 :
            /\ Holds([k |-> "elem", s |-> s], x) = Holds([k |-> "contains", m |-> Eq(x)], c)
            /\ Holds([k |-> "elem", s |-> s], x) = Holds([k |-> "key", s |-> [i \in 1..Len(s) |-> <<s[i], 0>>]], x)
            /\ Holds([k |-> "each", m |-> Not_(Eq(x))], c) = ~Holds([k |-> "contains", m |-> Eq(x)], c)
            /\ Holds([k |-> "elem", s |-> s], x) => s[FirstAt(s, x) + 1] = x
       /\ \A f, g \in 0..3, a \in 0..1 :
            /\ Holds([k |-> "when", f |-> f, by |-> a, m |-> [k |-> "size", m |-> Eq(Len(s))]], c)
            /\ Holds([k |-> "when", f |-> f, by |-> a, m |-> [k |-> "elements", s |-> [i \in 1..Len(s) |-> Transform(f, a, s[i])]]], c)
            /\ Holds([k |-> "when", f |-> f, by |-> a, m |-> [k |-> "when", f |-> g, by |-> 1, m |-> [k |-> "elements", s |-> [i \in 1..Len(s) |-> Transform(g, 1, Transform(f, a, s[i]))]]]], c)
  /\ \A t \in Texts : Holds([k |-> "dropped", s |-> t], Dropped(t)) /\ (Holds([k |-> "dropped", s |-> t], t) => Dropped(t) = t)
ASSUME Laws
Forms == {0, 2, 5, 6}
Init == v = 0 /\ steps \in UNION {[1..n -> Forms \X {0, 5}] : n \in 0..MaxSteps} /\ at = 0 /\ r = [log |-> <<>>, sum |-> 0, soft |-> 0, hard |-> 0]
\* one statement of the body at a time; a fatal failure leaves it
Step == /\ at < Len(steps) /\ r.hard = 0
        /\ at' = at + 1
        /\ r' = [log |-> Append(r.log, at),
                 sum |-> r.sum + (IF steps[at + 1][2] = 0 THEN 1 + Adds(steps[at + 1][1], at) ELSE IF steps[at + 1][1] = 0 THEN 1 ELSE 0),
                 soft |-> r.soft + (IF steps[at + 1][2] # 0 /\ steps[at + 1][1] = 0 THEN 1 ELSE 0),
                 hard |-> IF steps[at + 1][2] # 0 /\ steps[at + 1][1] # 0 THEN 1 ELSE 0]
        /\ UNCHANGED <<v, steps>>
Done == (at = Len(steps) \/ r.hard = 1) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
\* at the end the machine has done what the function of the whole says; every call is made once, in order, until the first fatal failure
Ends == (at = Len(steps) \/ r.hard = 1) => r = RunAll(steps)
Once == r.log = [i \in 1..at |-> i - 1] /\ r.hard <= 1
=============================================================================
