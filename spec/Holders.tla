------------------------------ MODULE Holders ------------------------------
(***************************************************************************)
(* Cells with values and holders of values: holder h is empty <<0, 0>>,    *)
(* owns a value <<1, x>>, or refers to a cell <<2, i>>.  Required values,  *)
(* reference wrappers, optional references, data-or-reference holders and  *)
(* opaque values are all this machine with fewer operations.               *)
(* left: what a holder is after its own value was moved out of it:         *)
(* 0 empty, 1 unchanged, 2 owning -1, 3 owning 0.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Values, NHold, NCell, InitLeft
VARIABLES cell, hold, left
None == <<0, 0>>
Own(x) == <<1, x>>
Ref(i) == <<2, i>>
Has(h) == h[1] # 0
Read(c, h) == IF h[1] = 1 THEN h[2] ELSE c[h[2]]
Left(lf, h) == IF h[1] # 1 THEN h ELSE IF lf = 0 THEN None ELSE IF lf = 1 THEN h ELSE IF lf = 2 THEN Own(-1) ELSE Own(0)

R(c, h, ret) == [ok |-> TRUE, c |-> c, h |-> h, ret |-> ret]
No(c, h) == [ok |-> FALSE, c |-> c, h |-> h, ret |-> 0]
Write(c, h, t, x) ==
  CASE h[t][1] = 0 -> No(c, h)
    [] h[t][1] = 1 -> R(c, [h EXCEPT ![t] = Own(x)], 0)
    [] h[t][1] = 2 -> R([c EXCEPT ![h[t][2]] = x], h, 0)
Step(lf, c, h, e) ==
  LET t == e.t IN
  CASE e.o = "own" -> R(c, [h EXCEPT ![t] = Own(e.x)], 0)
    [] e.o = "bind" -> R(c, [h EXCEPT ![t] = Ref(e.i)], 0)
    [] e.o = "null" -> R(c, [h EXCEPT ![t] = None], 0)
    [] e.o = "write" -> Write(c, h, t, e.x)
    \* assigns the value if there is something to assign to, else owns it
    [] e.o = "set" -> IF Has(h[t]) THEN Write(c, h, t, e.x) ELSE R(c, [h EXCEPT ![t] = Own(e.x)], 0)
    \* takes a copy of the value referred to, or x if there is none
    [] e.o = "adopt" -> LET x == IF Has(h[t]) THEN Read(c, h[t]) ELSE e.x IN R(c, [h EXCEPT ![t] = Own(x)], x)
    [] e.o = "get" -> R(c, h, IF Has(h[t]) THEN Read(c, h[t]) ELSE e.x)
    [] e.o = "read" -> IF Has(h[t]) THEN R(c, h, Read(c, h[t])) ELSE No(c, h)
    [] e.o = "copy" -> R(c, [h EXCEPT ![t] = h[e.s]], 0)
    [] e.o = "move" -> R(c, IF e.s = t THEN h ELSE [h EXCEPT ![t] = h[e.s], ![e.s] = Left(lf, h[e.s])], 0)
    [] e.o = "swap" -> R(c, [h EXCEPT ![t] = h[e.s], ![e.s] = h[t]], 0)
    [] e.o = "cell" -> R([c EXCEPT ![e.i] = e.x], h, 0)
    [] OTHER -> Assert(FALSE, <<"unknown operation", e>>)
\* comparison: nothing is less than everything
Cmp(c, a, b) == IF ~Has(a) THEN (IF Has(b) THEN -1 ELSE 0) ELSE IF ~Has(b) THEN 1
                ELSE IF Read(c, a) < Read(c, b) THEN -1 ELSE IF Read(c, a) > Read(c, b) THEN 1 ELSE 0

Hs == 1..NHold
Cs == 1..NCell
Init == left = InitLeft /\ cell \in [Cs -> {0}] /\ hold = [h \in Hs |-> None]
Ops == [o : {"own", "write", "set", "adopt"}, t : Hs, x : Values] \cup [o : {"bind"}, t : Hs, i : Cs] \cup [o : {"null"}, t : Hs]
       \cup [o : {"copy", "move", "swap"}, t : Hs, s : Hs] \cup [o : {"cell"}, t : {1}, i : Cs, x : Values]
Next == UNCHANGED left /\ \E e \in Ops : LET r == Step(left, cell, hold, e) IN cell' = r.c /\ hold' = r.h
Spec == Init /\ [][Next]_<<cell, hold, left>>
TypeOK == \A h \in Hs : \/ hold[h] = None
                        \/ hold[h][1] = 1 /\ hold[h][2] \in Values \cup {0, -1}
                        \/ hold[h][1] = 2 /\ hold[h][2] \in Cs
\* an operation touches only its holders and the cell they refer to; a write is read back; a
\* reference sees every change of its cell; owners never share
Frame == \A e \in Ops : LET r == Step(left, cell, hold, e) IN
  /\ \A u \in Hs : (u # e.t \/ e.o = "cell") /\ (e.o \notin {"move", "swap"} \/ e.s # u) => r.h[u] = hold[u]
  /\ \A i \in Cs : r.c[i] # cell[i] => \/ e.o = "cell" /\ e.i = i
                                       \/ e.o \in {"write", "set"} /\ hold[e.t] = Ref(i)
  /\ (r.ok /\ e.o \in {"own", "write", "set"}) => Read(r.c, r.h[e.t]) = e.x
  /\ (e.o = "adopt" /\ Has(hold[e.t])) => Read(r.c, r.h[e.t]) = Read(cell, hold[e.t]) /\ r.c = cell
  /\ (~r.ok) => r.c = cell /\ r.h = hold
Total == \A a, b \in Hs : Cmp(cell, hold[a], hold[b]) = -Cmp(cell, hold[b], hold[a])
=============================================================================
