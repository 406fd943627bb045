----------------------------- MODULE CachesTrace -----------------------------
(* Real cleanups judged by Caches: the caches listed, what was expired.     *)
EXTENDS TraceBase, FiniteSets
C == INSTANCE Caches WITH Keys <- {}, Times <- {}, Prefixes <- {}, store <- <<>>, last <- [done |-> FALSE]
Ids(s, X) == {s[i].id : i \in X}
\* each expired entry once; ids are distinct
ExpiredOk(s, p, got) == \E X \in C!MayExpire(s, p) : Cardinality(X) = Len(got) /\ {got[i] : i \in 1..Len(got)} = Ids(s, X)
CallOk(r) ==
  CASE r.op = "expire" -> ExpiredOk(r.caches, r.prefix, r.got) /\ r.kept
    [] r.op = "main" -> r.code = 0 /\ ExpiredOk(r.caches, r.prefix, r.got)
    [] r.op = "usage" -> r.code # 0 /\ r.got = <<>>
    [] OTHER -> FALSE
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Accept(CallOk(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
