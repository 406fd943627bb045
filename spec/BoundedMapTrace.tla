-------------------------- MODULE BoundedMapTrace --------------------------
(* Recorded operations on real bounded sets and maps, replayed on BoundedMap. *)
EXTENDS TraceBase
VARIABLES m, caps, sg
B == INSTANCE BoundedMap WITH InitCaps <- <<>>, InitSg <- <<>>, Keys <- {0}, Values <- {0}
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.op = e /\ l' = l + 1
tvars == <<l, m, caps, sg>>
TraceInit == l = 1 /\ m = <<>> /\ caps = <<>> /\ sg = <<>>
TReset == IsEvent("reset") /\ caps' = Ev.caps /\ sg' = Ev.sg /\ m' = [t \in 1..Len(Ev.caps) |-> <<>>]
Same == UNCHANGED <<m, caps, sg>>
Ks(s) == [i \in 1..Len(s) |-> s[i][1]]
Xs(s) == [i \in 1..Len(s) |-> s[i][2]]
\* every way of reading slot o shows s
SlotOk(o, s, cap) ==
  /\ \A i \in 1..Len(o.k) : o.k[i] = Ks(s)
  /\ \A i \in 1..Len(o.x) : o.x[i] = Xs(s)
  /\ o.sz = <<Len(s), IF s = <<>> THEN 1 ELSE 0, cap, cap, Len(s), 1>>
ShowOk(post, w) == Len(post) = Len(caps) /\ \A t \in 1..Len(caps) : SlotOk(post[t], w[t], caps[t])
TOp == /\ IsEvent("do") /\ UNCHANGED <<caps, sg>>
       /\ LET r == B!Step(m, Ev)
          IN /\ m' = r.m
             /\ Accept(Ev.ok = r.ok /\ (r.ok => Ev.ret = r.ret) /\ ShowOk(Ev.post, r.m))
\* an operation in a process of its own, from content f of slot t: it does not continue if refused
TOver == IsEvent("over") /\ Same /\ Accept(Ev.died = ~B!Step([m EXCEPT ![Ev.t] = [i \in 1..Len(Ev.f) |-> <<Ev.f[i], Ev.fx[i]>>]], Ev).ok)
\* lookups of key k in slot t through several interfaces; v: values of at(), empty if refused
TQuery == IsEvent("q") /\ Same
          /\ Accept(LET s == m[Ev.t] w == B!Query(Ev.t, s, Ev.k) IN
                    /\ Len(Ev.r) >= 2 /\ \A i \in 1..Len(Ev.r) : Ev.r[i] = w
                    /\ \A i \in 1..Len(Ev.v) : Ev.v[i] = IF B!Has(Ev.t, s, Ev.k) THEN <<B!At(s, Ev.k)>> ELSE <<>>)
TSub == IsEvent("sub") /\ Same
        /\ Accept(LET s == m[Ev.t] IN
                  /\ \A i \in 1..Len(Ev.all) : Ev.all[i] = \A j \in 1..Len(Ev.ks) : B!Has(Ev.t, s, Ev.ks[j])
                  /\ \A i \in 1..Len(Ev.any) : Ev.any[i] = \E j \in 1..Len(Ev.ks) : B!Has(Ev.t, s, Ev.ks[j]))
TKeyComp == IsEvent("kc") /\ Same /\ Accept(\A i \in 1..Len(Ev.r) : Ev.r[i] = B!Before(Ev.t, Ev.a, Ev.b))
Bools(c) == <<c = 0, c # 0, c < 0, c <= 0, c > 0, c >= 0>>
TCmp == IsEvent("cmp") /\ Same /\ Accept(LET c == B!CmpPairs(m[Ev.t], m[Ev.s]) IN Ev.b = Bools(c) /\ Ev.c = c)
TSame == IsEvent("same") /\ Same /\ Accept(Ev.got = Ev.want)
TraceNext == TReset \/ TOp \/ TOver \/ TQuery \/ TSub \/ TKeyComp \/ TCmp \/ TSame
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Inv == B!WellFormed
=============================================================================
