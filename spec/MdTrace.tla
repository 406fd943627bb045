------------------------------ MODULE MdTrace ------------------------------
(* Real alignments judged by MdTables: in, out, and out aligned again.      *)
EXTENDS TraceBase, MdTables
CallOk(r) ==
  CASE r.op = "align" -> AlignedOk(r.doc, r.out) /\ r.again = r.out
    [] r.op = "file" -> /\ r.same = (r.out = r.doc) /\ AlignedOk(r.doc, r.out)
                        /\ r.code = (IF r.same THEN 0 ELSE 1)
                        /\ r.now = (IF r.check THEN r.doc ELSE r.out) /\ r.ends
    [] OTHER -> FALSE
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Accept(CallOk(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
