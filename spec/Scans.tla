------------------------------- MODULE Scans -------------------------------
(***************************************************************************)
(* A scan over a container of any type and iterators into it.              *)
(* item: the elements in the container's order; pos[t]: 0-based position   *)
(* of iterator t, Len(item) at the end.  Iterators are independent.  Two   *)
(* iterators are equal iff they designate the same element or are both at  *)
(* the end; scans by value only know the latter.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Values, NIter
VARIABLES item, pos
AtEnd(s, p) == p >= Len(s)
R(s, p, ret) == [s |-> s, p |-> p, ret |-> ret]
Step(s, p, e) ==
  CASE e.o = "begin" -> R(s, [p EXCEPT ![e.t] = 0], 0)
    [] e.o = "end" -> R(s, [p EXCEPT ![e.t] = Len(s)], 0)
    [] e.o = "copy" -> R(s, [p EXCEPT ![e.t] = p[e.s]], 0)
    [] e.o = "next" -> R(s, [p EXCEPT ![e.t] = p[e.t] + 1], 0)
    \* *t++
    [] e.o = "postread" -> R(s, [p EXCEPT ![e.t] = p[e.t] + 1], s[p[e.t] + 1])
    \* s := t++
    [] e.o = "post" -> R(s, [[p EXCEPT ![e.s] = p[e.t]] EXCEPT ![e.t] = p[e.t] + 1], 0)
    [] e.o = "read" -> R(s, p, s[p[e.t] + 1])
    [] e.o = "write" -> R([s EXCEPT ![p[e.t] + 1] = e.x], p, 0)
    \* element changed in the container
    [] e.o = "under" -> R([s EXCEPT ![e.i + 1] = e.x], p, 0)
    [] OTHER -> R(s, p, -77)
CanStep(s, p, e) == /\ e.o \in {"next", "post", "postread", "read", "write"} => ~AtEnd(s, p[e.t])
                    /\ e.o = "under" => e.i < Len(s)
                    /\ e.o = "post" => e.s # e.t
Its == 1..NIter
Ops == [o : {"begin", "end", "next", "read", "postread"}, t : Its, s : {1}, i : {0}, x : {0}] \cup [o : {"copy", "post"}, t : Its, s : Its, i : {0}, x : {0}]
       \cup [o : {"write"}, t : Its, s : {1}, i : {0}, x : Values] \cup [o : {"under"}, t : {1}, s : {1}, i : 0..2, x : Values]
Init == item \in UNION {[1..n -> Values] : n \in 0..3} /\ pos = [t \in Its |-> 0]
Next == \E e \in Ops : CanStep(item, pos, e) /\ LET r == Step(item, pos, e) IN item' = r.s /\ pos' = r.p
Spec == Init /\ [][Next]_<<item, pos>>
InRange == \A t \in Its : pos[t] \in 0..Len(item)
Independent == \A e \in Ops : CanStep(item, pos, e) =>
  \A t \in Its : (t # e.t /\ ~(e.o = "post" /\ t = e.s)) => Step(item, pos, e).p[t] = pos[t]
(* conversion into other containers *)
RECURSIVE Insert(_, _, _)
Insert(s, x, dup) == IF s = <<>> THEN <<x>> ELSE IF x < s[1] THEN <<x>> \o s ELSE IF x = s[1] /\ ~dup THEN s ELSE <<s[1]>> \o Insert(Tail(s), x, dup)
RECURSIVE InsertAll(_, _, _)
InsertAll(s, q, dup) == IF q = <<>> THEN s ELSE InsertAll(Insert(s, q[1], dup), Tail(q), dup)
Converted(q, kind) == CASE kind = "seq" -> q [] kind = "set" -> InsertAll(<<>>, q, FALSE) [] kind = "multiset" -> InsertAll(<<>>, q, TRUE)
=============================================================================
