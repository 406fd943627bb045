--------------------------- MODULE DemangleTrace ---------------------------
EXTENDS TraceBase
INSTANCE Mangling
CallOk(r) ==
  CASE r.op = "type" -> r.in = Mangle(r.t) /\ r.out = Show(r.t)  \* mangled by the specification
    [] r.op = "real" -> r.out = Show(r.t)                        \* mangled by the compiler
    [] r.op = "text" -> NoName(r.in) /\ r.out = r.in
    [] r.op = "broken" -> Broken(r.t, r.tail) /\ r.in = Mangle(r.t) \o r.tail /\ r.out = r.in
    [] OTHER -> FALSE
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Accept(CallOk(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
