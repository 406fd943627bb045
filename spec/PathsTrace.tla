----------------------------- MODULE PathsTrace -----------------------------
(* Recorded calls of the path functions, judged by Paths. *)
EXTENDS TraceBase, Paths
Ev == Trace[l]
CallOk(r) ==
  CASE r.op = "norm" -> r.r = Norm(r.p) /\ r.abs = IsAbs(r.p)
    [] r.op = "join" -> r.r = Join(r.ps)
    [] r.op = "joinabs" -> r.r = JoinAbs(r.ps)
    [] OTHER -> FALSE
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Accept(CallOk(Ev))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
