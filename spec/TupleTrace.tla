----------------------------- MODULE TupleTrace -----------------------------
(* Recorded decompositions of real aggregates against TupleAlias.            *)
EXTENDS TraceBase
CONSTANTS MaxN, Values
VARIABLES fields, bools, moved
TA == INSTANCE TupleAlias
tvars == <<l, fields, bools, moved>>
Ev == Trace[l]
TraceInit == l = 1 /\ fields = <<>> /\ bools = <<>> /\ moved = <<>>
IsEvent(e) == l <= Len(Trace) /\ Ev.op = e /\ l' = l + 1
Same(s, n, F(_)) == Len(s) = n /\ \A i \in 1..n : s[i] = F(i)
One(i) == 1
Index(i) == i - 1
\* the decomposition itself: count, order, types and identity of every field
HeadOk(r) == /\ r.can /\ Same(r.sizes, 3, LAMBDA i : r.n)
             /\ Same(r.ltypes, r.n, One) /\ Same(r.ctypes, r.n, One) /\ Same(r.rtypes, r.n, One)
             /\ Same(r.laddr, r.n, Index) /\ Same(r.caddr, r.n, Index)
TReset == /\ IsEvent("reset")
          /\ LET ok == Has(Ev, "isbool") /\ HeadOk(Ev)
             IN Accept(ok) /\ TA!New(IF Has(Ev, "isbool") THEN Ev.isbool ELSE <<>>)
TWrite == /\ (IsEvent("direct") \/ IsEvent("alias"))
          /\ TA!Write(Ev.i + 1, Ev.v)
          /\ Accept(Ev.s = fields' /\ Ev.l = fields' /\ Ev.c = fields')
TMove == /\ IsEvent("moved")
         /\ IF Len(fields) = 0 THEN UNCHANGED <<fields, bools, moved>> ELSE TA!MoveOut
         /\ Accept(/\ Len(fields) > 0 => Ev.want = fields
                   /\ Ev.got = Ev.want /\ Same(Ev.moves, Len(Ev.want), LAMBDA i : 100 * (IF Len(fields) > 0 THEN moved'[i] ELSE 1)))
TRefs == IsEvent("refs") /\ Accept(Ev.a /\ Ev.b /\ Ev.c) /\ UNCHANGED <<fields, bools, moved>>
TStart == IsEvent("extra") /\ fields' = <<>> /\ bools' = <<>> /\ moved' = <<>>
TraceNext == TReset \/ TWrite \/ TMove \/ TRefs \/ TStart
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
