---------------------------- MODULE MopeToolTrace ----------------------------
(* Recorded runs of the real template program on real files.                  *)
EXTENDS TraceBase, MopeTool
RunOk(r) == LET w == Run(r.flags, r.rest, r.files) IN
  r.code = w.code /\ r.out = w.out /\ r.after = After(r.flags, r.rest, r.files)
CallOk(r) == IF r.op = "run" THEN RunOk(r) ELSE FALSE
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Accept(CallOk(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
