----------------------------- MODULE ProxyTrace -----------------------------
(* Recorded operations through real proxies, and views, replayed on Proxies. *)
EXTENDS TraceBase
VARIABLE seq
P == INSTANCE Proxies WITH Values <- {0}, MaxLen <- 0
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.op = e /\ l' = l + 1
tvars == <<l, seq>>
TraceInit == l = 1 /\ seq = <<>>
TReset == IsEvent("reset") /\ seq' = Ev.items
\* fwd: every way of walking or reading all elements in order; bwd: in reverse; nums: sizes;
\* pairs: what the proxy answers and what the container itself answers; raw: the container itself
SeenOk(s) == /\ Ev.raw = s /\ \A j \in 1..Len(Ev.fwd) : Ev.fwd[j] = s
             /\ \A j \in 1..Len(Ev.bwd) : Ev.bwd[j] = P!Reverse(s)
             /\ \A j \in 1..Len(Ev.nums) : Ev.nums[j] = Len(s)
             /\ Ev.empty = (s = <<>>) /\ \A j \in 1..Len(Ev.pairs) : Ev.pairs[j][1] = Ev.pairs[j][2]
TDo == /\ IsEvent("do") /\ LET r == P!Step(seq, Ev) IN seq' = r.s /\ Accept(Ev.ret = r.ret /\ SeenOk(r.s))
\* against another container content: == # < <= > >= (2: not offered)
Bools(c) == <<c = 0, c # 0, c < 0, c <= 0, c > 0, c >= 0>>
TCmp == IsEvent("cmp") /\ UNCHANGED seq
        /\ Accept(\A j \in 1..6 : Ev.b[j] = 2 \/ (Ev.b[j] = 1) = Bools(P!Lex(seq, Ev.other))[j])
THash == IsEvent("hash") /\ UNCHANGED seq /\ Accept(Ev.other = seq => Ev.same)
TView == IsEvent("view") /\ UNCHANGED seq
         /\ LET s == P!View(Ev.items, Ev.steps) IN
            Accept(/\ \A j \in 1..Len(Ev.fwd) : Ev.fwd[j] = s
                   /\ \A j \in 1..Len(Ev.nums) : Ev.nums[j] = Len(s)
                   /\ \A j \in 1..Len(Ev.bools) : Ev.bools[j] = (s = <<>>)
                   /\ \A j \in 1..Len(Ev.ends) : s # <<>> /\ Ev.ends[j] = <<s[1], s[Len(s)]>>)
TraceNext == TReset \/ TDo \/ TCmp \/ THash \/ TView
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
