----------------------------- MODULE DiffsTrace -----------------------------
(* Recorded diffs of the library judged.                                      *)
EXTENDS TraceBase, DiffsJudge
CallOk(r) ==
  CASE r.op = "diff" -> DiffOk(r)
    [] r.op = "header" -> HeaderOk(r)
    [] r.op = "flag" -> FlagOk(r)
    [] OTHER -> FALSE
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Accept(CallOk(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
