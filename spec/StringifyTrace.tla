---------------------------- MODULE StringifyTrace ----------------------------
(* Recorded printing, comparing, hashing and building of real structs, judged *)
(* by Stringify.                                                              *)
EXTENDS TraceBase, Stringify
Given(mode, opt) == IF mode = "custom" THEN Fill(opt, Default) ELSE Mode(mode)
Controls(own) == [t \in 1..Len(own) |-> [k \in 1..Len(own[t]) |-> [o |-> own[t][k].o, i |-> IF own[t][k].two THEN own[t][k].i ELSE own[t][k].o, from |-> own[t][k].from]]]
PrintOk(r) == LET want == Text(r.v, Given(r.mode, r.opt), Controls(r.own), r.root) IN \A k \in 1..Len(r.texts) : r.texts[k] = want
Rel(c) == [eq |-> c = 0, ne |-> c # 0, lt |-> c = -1, le |-> c \in {-1, 0}, gt |-> c = 1, ge |-> c \in {0, 1},
           c |-> CASE c = -1 -> "less" [] c = 0 -> "equal" [] c = 1 -> "greater" [] OTHER -> "none"]
CmpOk(r) == LET want == Rel(Cmp(r.a, r.b)) IN r.hash /\ \A k \in 1..Len(r.rels) : r.rels[k] = want
CallOk(r) == CASE r.op = "print" -> PrintOk(r)
               [] r.op = "cmp" -> CmpOk(r)
               [] r.op = "make" -> \A k \in 1..Len(r.vs) : r.vs[k] = r.v
               [] r.op = "reset" -> TRUE
               [] OTHER -> FALSE
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Accept(CallOk(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_l
===============================================================================
