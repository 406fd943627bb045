-------------------------- MODULE BoundedSeqTrace --------------------------
(* Recorded operations on real bounded vectors, replayed on BoundedSeq.  An  *)
(* event carries the operation, whether it was refused, its result, and what *)
(* every slot shows afterwards through each way of reading it.               *)
EXTENDS TraceBase
VARIABLES v, caps
B == INSTANCE BoundedSeq WITH InitCaps <- <<>>, Values <- {0}
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.op = e /\ l' = l + 1
tvars == <<l, v, caps>>
TraceInit == l = 1 /\ v = <<>> /\ caps = <<>>
TReset == IsEvent("reset") /\ caps' = Ev.caps /\ v' = [t \in 1..Len(Ev.caps) |-> <<>>]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
SlotOk(o, s, cap) ==
  /\ o.it = s /\ o.ci = s /\ o.ix = s /\ o.da = s /\ o.ri = Rev(s) /\ o.cri = Rev(s)
  /\ o.sz = <<Len(s), IF s = <<>> THEN 1 ELSE 0, cap, cap>>
  /\ o.fb = (IF s = <<>> THEN <<>> ELSE <<s[1], s[Len(s)], s[1], s[Len(s)]>>)
ShowOk(post, w) == Len(post) = Len(caps) /\ \A t \in 1..Len(caps) : SlotOk(post[t], w[t], caps[t])
TOp == /\ IsEvent("do") /\ UNCHANGED caps
       /\ LET r == B!Step(v, Ev)
          IN /\ v' = r.v
             /\ Accept(Ev.ok = r.ok /\ (r.ok => Ev.ret = r.ret) /\ ShowOk(Ev.post, r.v))
\* an operation that would exceed the capacity, in a process of its own: it does not continue
TOver == /\ IsEvent("over") /\ UNCHANGED <<v, caps>>
         /\ Accept(Ev.died = ~B!Step([v EXCEPT ![Ev.t] = Ev.from], Ev).ok)
\* the six comparisons of slots t and s: ==, !=, <, <=, >, >=, and the three-way one
Bools(c) == <<c = 0, c # 0, c < 0, c <= 0, c > 0, c >= 0>>
TCmp == /\ IsEvent("cmp") /\ UNCHANGED <<v, caps>>
        /\ Accept(LET c == B!CmpSeq(v[Ev.t], v[Ev.s]) IN Ev.b = Bools(c) /\ Ev.c = c)
\* constant evaluation and helper functions: the elements are the expected ones
TSame == IsEvent("same") /\ UNCHANGED <<v, caps>> /\ Accept(Ev.got = Ev.want)
TLife == IsEvent("life") /\ UNCHANGED <<v, caps>>
TraceNext == TReset \/ TOp \/ TOver \/ TCmp \/ TSame \/ TLife
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Inv == B!WithinCapacity
=============================================================================
