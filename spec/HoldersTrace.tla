--------------------------- MODULE HoldersTrace ---------------------------
(* Recorded operations on real holders, replayed on Holders. *)
EXTENDS TraceBase
VARIABLES cell, hold, left
H == INSTANCE Holders WITH Values <- {0}, NHold <- 0, NCell <- 0, InitLeft <- 0
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.op = e /\ l' = l + 1
tvars == <<l, cell, hold, left>>
TraceInit == l = 1 /\ cell = <<>> /\ hold = <<>> /\ left = 0
\* a history starts with cells and holders in known states
TReset == IsEvent("reset") /\ cell' = Ev.cells /\ hold' = Ev.holds /\ left' = Ev.left
Same == UNCHANGED <<cell, hold, left>>
\* p.k: state reported, p.i: cell designated by address (0: none of the cells), p.v: every way of reading
ShowOk(p, c, h) == /\ p.k = h[1]
                   /\ p.i = IF h[1] = 2 THEN h[2] ELSE 0
                   /\ IF H!Has(h) THEN Len(p.v) > 0 /\ \A j \in 1..Len(p.v) : p.v[j] = H!Read(c, h) ELSE p.v = <<>>
AllOk(post, cells, r) == cells = r.c /\ Len(post) = Len(r.h) /\ \A t \in 1..Len(post) : ShowOk(post[t], r.c, r.h[t])
TDo == /\ IsEvent("do") /\ UNCHANGED left
       /\ LET r == H!Step(left, cell, hold, Ev) IN
          /\ cell' = r.c /\ hold' = r.h
          /\ Accept(r.ok /\ Ev.ret = r.ret /\ AllOk(Ev.post, Ev.cells, r))
\* in a process of its own: it does not continue if there is nothing to read or write
TOver == IsEvent("over") /\ Same /\ Accept(Ev.died = ~H!Step(left, cell, hold, Ev).ok)
\* b: == # < <= > >=, each 0, 1, or 2 if the type does not offer it
Bools(c) == <<c = 0, c # 0, c < 0, c <= 0, c > 0, c >= 0>>
BoolsOk(b, c) == \A j \in 1..6 : b[j] = 2 \/ (b[j] = 1) = Bools(c)[j]
TCmp == IsEvent("cmp") /\ Same /\ Accept(BoolsOk(Ev.b, H!Cmp(cell, hold[Ev.t], hold[Ev.s])))
TCmpX == IsEvent("cmpx") /\ Same /\ Accept(BoolsOk(Ev.b, H!Cmp(cell, hold[Ev.t], H!Own(Ev.x))))
TCmpN == IsEvent("cmpn") /\ Same /\ Accept(BoolsOk(Ev.b, H!Cmp(cell, hold[Ev.t], H!None)))
\* equal values have equal hashes (numbered by first occurrence)
THash == IsEvent("hash") /\ Same
         /\ Accept(\A a, b \in 1..Len(Ev.h) : (Ev.h[a] >= 0 /\ Ev.h[b] >= 0 /\ H!Cmp(cell, hold[a], hold[b]) = 0) => Ev.h[a] = Ev.h[b])
\* printed form: the value, or std::nullopt
TStr == IsEvent("str") /\ Same
        /\ Accept(Len(Ev.s) = Len(hold) /\ \A t \in 1..Len(hold) :
             Ev.s[t] = IF H!Has(hold[t]) THEN (IF H!Read(cell, hold[t]) < 0 THEN "-" ELSE "") \o ToString(LET x == H!Read(cell, hold[t]) IN IF x < 0 THEN -x ELSE x) ELSE "std::nullopt")
TraceNext == TReset \/ TDo \/ TOver \/ TCmp \/ TCmpX \/ TCmpN \/ THash \/ TStr
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
