------------------------------ MODULE JsonMC ------------------------------
(* How documents are held: nodes that own other nodes.  Copies clone, moves *)
(* take over the content and leave null behind, what is replaced is freed.  *)
(* Checked: the held form always denotes the ideal documents, every node has *)
(* exactly one owner, and nothing is lost, whatever is assigned to whatever  *)
(* part, also of itself.                                                     *)
EXTENDS JsonDoc
CONSTANTS Ids, MaxElems, MaxSteps
NameSet == {<<97>>, <<98>>}
VARIABLES heap, live, root, ideal, steps
vars == <<heap, live, root, ideal, steps>>
Docs == {1, 2}
NullNode == [k |-> 0, q |-> 0, c |-> <<>>, n |-> <<>>]
RECURSIVE Abs(_, _)
Abs(h, i) == LET x == h[i] IN [Null EXCEPT !.k = x.k, !.q = x.q, !.r = IF x.k = 3 THEN "i" ELSE "", !.n = x.n, !.c = [j \in 1..Len(x.c) |-> Abs(h, x.c[j])]]
RECURSIVE Below(_, _), At(_, _, _), Paths(_)
Below(h, i) == {i} \cup UNION {Below(h, h[i].c[j]) : j \in 1..Len(h[i].c)}
At(h, i, p) == IF p = <<>> THEN i ELSE At(h, h[i].c[p[1]], Tail(p))
\* positions of all parts of a value
Paths(v) == {<<>>} \cup UNION {{<<j>> \o p : p \in Paths(v.c[j])} : j \in 1..Len(v.c)}
RECURSIVE PartP(_, _), WithP(_, _, _)
PartP(v, p) == IF p = <<>> THEN v ELSE PartP(v.c[p[1]], Tail(p))
WithP(v, p, x) == IF p = <<>> THEN x ELSE [v EXCEPT !.c[p[1]] = WithP(@, Tail(p), x)]

\* Clones node i into free nodes: <<heap, live, new node>>
RECURSIVE Clone(_, _, _), CloneAll(_, _, _, _)
Clone(h, lv, i) == LET new == CHOOSE x \in Ids \ lv : TRUE
                       r == CloneAll([h EXCEPT ![new] = h[i]], lv \cup {new}, h[i].c, <<>>)
                   IN <<[r[1] EXCEPT ![new].c = r[3]], r[2], new>>
CloneAll(h, lv, cs, acc) == IF cs = <<>> THEN <<h, lv, acc>>
                            ELSE LET r == Clone(h, lv, cs[1]) IN CloneAll(r[1], r[2], Tail(cs), Append(acc, r[3]))
Room(h, lv, i) == Cardinality(Ids \ lv) >= Cardinality(Below(h, i))
\* Node i gets the content x; what it owned goes.
Replace(h, lv, i, x) == LET gone == UNION {Below(h, h[i].c[j]) : j \in 1..Len(h[i].c)} IN
                        [h |-> [y \in Ids |-> IF y = i THEN x ELSE IF y \in gone THEN NullNode ELSE h[y]], live |-> lv \ gone]
Init == /\ heap = [i \in Ids |-> NullNode] /\ root = [d \in Docs |-> d] /\ live = Docs
        /\ ideal = [d \in Docs |-> Null] /\ steps = 0
Step == steps < MaxSteps /\ steps' = steps + 1 /\ UNCHANGED root
Scalar == {[NullNode EXCEPT !.k = 3, !.q = 4]}
SetScalar == \E d \in Docs, x \in Scalar \cup {NullNode, [NullNode EXCEPT !.k = 1], [NullNode EXCEPT !.k = 4]} : \E p \in Paths(ideal[d]) :
  /\ Step
  /\ LET r == Replace(heap, live, At(heap, root[d], p), x) IN heap' = r.h /\ live' = r.live
  /\ ideal' = [ideal EXCEPT ![d] = WithP(@, p, [Null EXCEPT !.k = x.k, !.q = x.q, !.r = IF x.k = 3 THEN "i" ELSE ""])]
\* copy and assign: the clone is made before anything is replaced
Copy == \E d, e \in Docs : \E p \in Paths(ideal[d]), s \in Paths(ideal[e]) :
  /\ Step /\ <<d, p>> # <<e, s>>
  /\ LET i == At(heap, root[d], p)
         j == At(heap, root[e], s) IN
     /\ Room(heap, live, j)
     /\ LET c == Clone(heap, live, j)
            top == c[3]
            r == Replace(c[1], c[2], i, c[1][top]) IN
        heap' = [r.h EXCEPT ![top] = NullNode] /\ live' = r.live \ {top}
  /\ ideal' = [ideal EXCEPT ![d] = WithP(@, p, PartP(ideal[e], s))]
\* move and assign: the content is taken out before anything is replaced
Move == \E d, e \in Docs : \E p \in Paths(ideal[d]), s \in Paths(ideal[e]) :
  /\ Step /\ ~(d = e /\ IsPrefixOf(s, p))
  /\ LET i == At(heap, root[d], p)
         j == At(heap, root[e], s)
         taken == heap[j]
         r == Replace([heap EXCEPT ![j] = NullNode], live, i, taken) IN heap' = r.h /\ live' = r.live
  /\ ideal' = LET x == PartP(ideal[e], s)
                  left == [ideal EXCEPT ![e] = WithP(@, s, Null)] IN [left EXCEPT ![d] = WithP(@, p, x)]
\* a new element or member at the end of a path, null at first
Grow == \E d \in Docs : \E p \in Paths(ideal[d]) : \E n \in NameSet :
  /\ Step
  /\ LET i == At(heap, root[d], p)
         v == PartP(ideal[d], p) IN
     /\ Len(v.c) < MaxElems /\ Ids \ live # {}
     /\ LET new == CHOOSE x \in Ids \ live : TRUE IN
        \/ /\ CanBe(v, 1)
           /\ heap' = [heap EXCEPT ![i] = [@ EXCEPT !.k = 1, !.c = Append(@, new)], ![new] = NullNode] /\ live' = live \cup {new}
           /\ ideal' = [ideal EXCEPT ![d] = WithP(@, p, Pushed(Made(v, 1, <<>>), Null))]
        \/ /\ CanBe(v, 4)
           /\ LET m == Made(v, 4, <<>>)
                  b == Before(m, n) IN
              IF NameAt(m, n) > 0
              THEN heap' = [heap EXCEPT ![i].k = 4] /\ live' = live
              ELSE heap' = [heap EXCEPT ![i] = [@ EXCEPT !.k = 4, !.c = Insert(@, b, new), !.n = Insert(@, b, n)], ![new] = NullNode] /\ live' = live \cup {new}
           /\ ideal' = [ideal EXCEPT ![d] = WithP(@, p, Emplaced(Made(v, 4, <<>>), n, Null))]
Drop == \E d \in Docs : \E p \in Paths(ideal[d]) :
  /\ Step
  /\ LET i == At(heap, root[d], p)
         v == PartP(ideal[d], p) IN
     \E from \in 0..Len(v.c) - 1 :
        LET gone == Below(heap, heap[i].c[from + 1]) IN
        /\ heap' = [y \in Ids |-> IF y \in gone THEN NullNode ELSE IF y = i THEN [heap[i] EXCEPT !.c = Without(@, from, from + 1), !.n = IF heap[i].k = 4 THEN Without(@, from, from + 1) ELSE @] ELSE heap[y]]
        /\ live' = live \ gone
        /\ ideal' = [ideal EXCEPT ![d] = WithP(@, p, Cut(v, from, from + 1))]
Next == SetScalar \/ Copy \/ Move \/ Grow \/ Drop
Spec == Init /\ [][Next]_vars
Denotes == \A d \in Docs : Abs(heap, root[d]) = ideal[d]
Owned == LET own == [i \in Ids |-> Cardinality({x \in live \X (1..MaxElems) : x[2] <= Len(heap[x[1]].c) /\ heap[x[1]].c[x[2]] = i})] IN
         /\ \A i \in live \ Docs : own[i] = 1
         /\ \A i \in (Ids \ live) \cup Docs : own[i] = 0
         /\ \A i \in Ids \ live : heap[i] = NullNode
         /\ live = UNION {Below(heap, root[d]) : d \in Docs}
\* Names stay ascending and comparison is a total order that agrees with identity.
RECURSIVE Sound(_)
Sound(v) == /\ (v.k = 4 => Len(v.n) = Len(v.c) /\ \A i \in 1..Len(v.n) - 1 : CmpSeq(v.n[i], v.n[i + 1]) < 0)
            /\ (v.k # 4 => v.n = <<>>) /\ (~IsContainer(v) => v.c = <<>>)
            /\ \A i \in 1..Len(v.c) : Sound(v.c[i])
Wellformed == \A d \in Docs : Sound(ideal[d]) /\ Ordered(ideal[d]) = ideal[d]
Comparison == /\ Cmp(ideal[1], ideal[2]) = - Cmp(ideal[2], ideal[1])
              /\ (Cmp(ideal[1], ideal[2]) = 0) = (ideal[1] = ideal[2])
\* Transitivity, over all values of two levels from a few scalars.
Small == {Null, Bool(FALSE), Bool(TRUE), Number("i", -4), Number("d", 2), Number("u", 4), [Number("i", 0) EXCEPT !.s = <<45, 57, 57>>], [Number("u", 0) EXCEPT !.s = <<57, 57>>], Text(<<>>), Text(<<97>>), Text(<<97, 97>>)}
Nested == {EmptyArray, EmptyObject} \cup {Pushed(EmptyArray, x) : x \in Small} \cup {Emplaced(EmptyObject, n, x) : n \in NameSet, x \in Small}
ASSUME \A x, y \in Small \cup Nested : Cmp(x, y) = - Cmp(y, x) /\ (Cmp(x, y) = 0 => x = y)
ASSUME \A x, y, z \in Small \cup {Pushed(EmptyArray, Null), EmptyArray, Emplaced(EmptyObject, <<97>>, Bool(TRUE)), Emplaced(EmptyObject, <<98>>, Null)} :
          Cmp(x, y) <= 0 /\ Cmp(y, z) <= 0 => Cmp(x, z) <= 0
=============================================================================
