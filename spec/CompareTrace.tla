---------------------------- MODULE CompareTrace ----------------------------
(* Judges recorded comparison matrices against the order of Scalars.tla.     *)
EXTENDS TraceBase, Scalars
Bit(x, p) == (x \div p) % 2
\* the 8 answers about one ordered pair, given o in {-1, 0, 1} or 2 = unordered
Bits(o) == CASE o = -1 -> 1 + 4 + 32 [] o = 1 -> 2 + 8 + 16 [] o = 0 -> 64 + 128 [] OTHER -> 0
Ieee(a, b) == IF IsNaN(a) \/ IsNaN(b) THEN 2 ELSE Cmp(a, b)
CallOk(r) ==
  CASE r.op = "cmp" -> /\ r.same /\ Len(r.c) = Len(r.l)
                       /\ \A i \in 1..Len(r.l) : \A j \in 1..Len(r.r) : r.c[i][j] = CmpTyped(r.lt, r.rt, r.l[i], r.r[j])
    [] r.op = "less" -> \A i \in 1..Len(r.l) : \A j \in 1..Len(r.r) : r.c[i][j] = Bits(Ieee(r.l[i], r.r[j]))
    [] r.op = "lessstr" -> \A i \in 1..Len(r.s) : \A j \in 1..Len(r.s) : r.c[i][j] = Bits(CmpBytes(r.s[i], r.s[j]))
    [] r.op = "ptr" -> \A i, j \in 0..(r.n - 1) : r.c[i * r.n + j + 1] = Sgn(i - j) + 1
    [] r.op = "weak" -> r.c = <<-1, 0, 1>>
    [] r.op = "flags" -> r.got = r.want
    [] OTHER -> FALSE
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Accept(CallOk(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
