--------------------------- MODULE BuildRulesTrace ---------------------------
(* What the real reader and lints say of build files, judged by BuildRules. *)
EXTENDS TraceBase, BuildRules
Listed(got, S) == Cardinality(S) = Len(got) /\ {<<got[i].line, got[i].name>> : i \in 1..Len(got)} = S
Kept(r) == {i \in 1..Len(r.files) : Belongs(r.files[i].parts, r.files[i].name)}
\* problems of a tree: <<index of the file, line, name>>
Of(r, lint) == UNION {LET rs == Rules(r.files[i].text) IN
                      {<<i, p[1], p[2]>> : p \in At(rs, IF lint = "naming" THEN Misnamed(rs) ELSE Untested(rs, r.files[i].pkg))} : i \in Kept(r)}
Told(r, got) == {<<got[i].file, got[i].line, got[i].name>> : i \in 1..Len(got)}
CallOk(r) ==
  CASE r.op = "read" -> LET rs == Rules(r.text) IN
         /\ r.rules = rs
         /\ Listed(r.misnamed, At(rs, Misnamed(rs))) /\ Listed(r.untested, At(rs, Untested(rs, r.pkg)))
    [] r.op = "tree" -> LET P == Of(r, r.lint) IN
         /\ Told(r, r.got) = P /\ Len(r.got) = Cardinality(P) /\ r.code = (IF P = {} THEN 0 ELSE 1)
    [] r.op = "gone" -> r.code = 1 /\ r.told
    [] OTHER -> FALSE
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Accept(CallOk(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
