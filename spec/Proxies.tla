------------------------------ MODULE Proxies ------------------------------
(***************************************************************************)
(* A container seen through a proxy: an ideal sequence.  Every operation   *)
(* offered by the proxy is the operation on the sequence; ret is what it   *)
(* answers (-1: refused).  Sorted proxies keep the sequence ascending      *)
(* without duplicates (only clear applies to them through the proxy).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANTS Values, MaxLen
VARIABLE seq
R(s, ret) == [s |-> s, ret |-> ret]
Fill(s, n, x) == IF n <= Len(s) THEN SubSeq(s, 1, n) ELSE s \o [i \in 1..(n - Len(s)) |-> x]
\* e.i is 0-based
Step(s, e) ==
  CASE e.o = "push_back" -> R(Append(s, e.x), 0)
    [] e.o = "emplace_back" -> R(Append(s, e.x), e.x)
    [] e.o = "push_front" -> R(<<e.x>> \o s, 0)
    [] e.o = "emplace_front" -> R(<<e.x>> \o s, e.x)
    [] e.o = "pop_back" -> R(SubSeq(s, 1, Len(s) - 1), 0)
    [] e.o = "pop_front" -> R(Tail(s), 0)
    [] e.o = "clear" -> R(<<>>, 0)
    [] e.o = "reserve" -> R(s, 0)
    [] e.o = "resize" -> R(Fill(s, e.i, 0), 0)
    [] e.o = "at" -> R(s, IF e.i < Len(s) THEN s[e.i + 1] ELSE -1)
    [] e.o = "set" -> R([s EXCEPT ![e.i + 1] = e.x], 0)
    [] e.o = "front" -> R(s, s[1])
    [] e.o = "back" -> R(s, s[Len(s)])
    [] OTHER -> R(s, -77)
Fits(s, e) == /\ e.o \in {"pop_back", "pop_front", "front", "back"} => Len(s) > 0
              /\ e.o = "set" => e.i < Len(s)
\* lexicographic comparison
RECURSIVE Lex(_, _)
Lex(a, b) == IF a = <<>> THEN (IF b = <<>> THEN 0 ELSE -1) ELSE IF b = <<>> THEN 1
             ELSE IF a[1] < b[1] THEN -1 ELSE IF a[1] > b[1] THEN 1 ELSE Lex(Tail(a), Tail(b))
Ops == [o : {"push_back", "emplace_back", "push_front", "emplace_front"}, x : Values, i : {0}] \cup
       [o : {"pop_back", "pop_front", "clear", "front", "back"}, x : {0}, i : {0}] \cup [o : {"resize", "at"}, x : {0}, i : 0..MaxLen] \cup [o : {"set"}, x : Values, i : 0..MaxLen]
Init == seq = <<>>
Next == \E e \in Ops : Fits(seq, e) /\ Len(Step(seq, e).s) <= MaxLen /\ seq' = Step(seq, e).s
Spec == Init /\ [][Next]_seq
Laws == /\ \A x \in Values : /\ Step(Step(seq, [o |-> "push_back", x |-> x, i |-> 0]).s, [o |-> "pop_back", x |-> 0, i |-> 0]).s = seq
                             /\ Step(Step(seq, [o |-> "push_front", x |-> x, i |-> 0]).s, [o |-> "pop_front", x |-> 0, i |-> 0]).s = seq
                             /\ Step(Step(seq, [o |-> "push_back", x |-> x, i |-> 0]).s, [o |-> "back", x |-> 0, i |-> 0]).ret = x
        /\ \A n \in 0..MaxLen : Len(Step(seq, [o |-> "resize", x |-> 0, i |-> n]).s) = n
(* views: a pipeline of steps over a sequence *)
TakeN(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
RECURSIVE UpTo(_, _)
UpTo(s, x) == IF s = <<>> \/ s[1] >= x THEN <<>> ELSE <<s[1]>> \o UpTo(Tail(s), x)
ViewStep(s, p) ==
  CASE p[1] = "take" -> TakeN(s, p[2])
    [] p[1] = "drop" -> SubSeq(s, p[2] + 1, Len(s))
    [] p[1] = "add" -> [i \in 1..Len(s) |-> s[i] + p[2]]
    [] p[1] = "reverse" -> Reverse(s)
    [] p[1] = "below" -> UpTo(s, p[2])
    [] p[1] = "iota" -> [i \in 1..p[3] |-> p[2] + i - 1]
View(s, ps) == FoldLeft(ViewStep, s, ps)
=============================================================================
