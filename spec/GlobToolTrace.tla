---------------------------- MODULE GlobToolTrace ----------------------------
(* Recorded runs of the real glob program on real trees.  roots: the texts    *)
(* that name the tree of the run, all other roots name nothing.               *)
EXTENDS TraceBase, GlobTool
RunOk(r) ==
  LET q == Request(r.args, Switch(r.flags, "re2", FALSE), r.globs)
      o == Options(r.flags) IN
  IF ~q.ok \/ ~\E i \in 1..Len(r.roots) : r.roots[i] = q.root THEN r.code = 1 /\ r.out = <<>>
  ELSE r.code = 0 /\ OutputOk(r.tree, q.Es, o, r.out)
CallOk(r) == IF r.op = "run" THEN RunOk(r) ELSE FALSE
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Accept(CallOk(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
