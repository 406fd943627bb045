---------------------------- MODULE SearchTrace ----------------------------
(* Searches over an index range [s, e) and case selection, as specified.     *)
EXTENDS TraceBase, FiniteSets, FiniteSetsExt
Least(S, none) == IF S = {} THEN none ELSE Min(S)
Greatest(S, none) == IF S = {} THEN none ELSE Max(S)
Hits(F(_), s, e) == {i \in s..(e - 1) : F(i)}
\* the highest i for which F holds on all of s..i
Prefix(F(_), s, e, none) == Greatest({i \in s..(e - 1) : \A k \in s..i : F(k)}, none)
\* true up to some point and false behind it: what the binary search requires
Monotone(F(_), s, e) == \A i \in s..(e - 1) : F(i) => \A k \in s..i : F(k)
RowOk(mask, q) ==
  LET s == q[1] e == q[2] F(i) == (mask \div 2^i) % 2 = 1
      H == Hits(F, s, e)
  IN /\ q[3] = Least(H, 99) /\ q[4] = Least(H, e)
     /\ q[5] = Greatest(H, 99) /\ q[6] = Greatest(H, e)
     /\ q[7] = Prefix(F, s, e, 99) /\ q[8] = Prefix(F, s, e, e)
     /\ (Monotone(F, s, e) => q[9] = Greatest(H, 99) /\ q[10] = Greatest(H, e))
     \* without the precondition the result still is one that satisfies the predicate, if any
     /\ (q[9] \in H \cup {99}) /\ (q[10] \in H \cup {e})
LongOk(r) ==
  LET Lt(i) == i < r.t Eq(i) == i = r.t
      L == Hits(Lt, r.s, r.e) Q == Hits(Eq, r.s, r.e)
  IN /\ r.bin = Greatest(L, 999) /\ r.max = Greatest(L, 999) /\ r.revlt = Greatest(L, 999)
     /\ r.lin = Least(Q, 999) /\ r.rev = Greatest(Q, 999)
FirstTrue(c) == Least({i \in 1..Len(c) : c[i] = 1}, 0)
CaseOk(r) == LET f == FirstTrue(r.conds) IN
  /\ Len(r.conds) = r.n
  /\ r.idx = f /\ r.type = f /\ r.skip = f
  /\ r.withelse = (IF f = 0 THEN 77 ELSE f) /\ r.elselast = r.withelse
CallOk(r) == CASE r.op = "search" -> \A i \in 1..Len(r.rows) : RowOk(r.mask, r.rows[i])
               [] r.op = "long" -> LongOk(r)
               [] r.op = "case" -> CaseOk(r)
               [] r.op = "case0" -> r.idx = 0 /\ r.type = 0
               [] OTHER -> FALSE
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Accept(CallOk(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
