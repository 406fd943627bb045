----------------------------- MODULE ScanTrace -----------------------------
(* Recorded iterations of real scans, replayed on Scans. *)
EXTENDS TraceBase
VARIABLES item, pos
S == INSTANCE Scans WITH Values <- {0}, NIter <- 0
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.op = e /\ l' = l + 1
tvars == <<l, item, pos>>
TraceInit == l = 1 /\ item = <<>> /\ pos = <<0, 0, 0>>
Same == UNCHANGED <<item, pos>>
TReset == IsEvent("reset") /\ item' = Ev.items /\ pos' = <<0, 0, 0>>
End == -99
At(s, p) == IF S!AtEnd(s, p) THEN End ELSE s[p + 1]
SizeOk(s) == Ev.size = Len(s) /\ Ev.empty = (s = <<>>)
\* at: what each iterator reads (or End), by * and by -> (null at the end); same: equality of all pairs;
\* under: the container where the scan only refers to it
TDo == /\ IsEvent("do")
       /\ LET r == S!Step(item, pos, Ev) IN
          /\ item' = r.s /\ pos' = r.p
          /\ Accept(/\ Ev.ret = r.ret /\ SizeOk(r.s)
                    /\ Len(Ev.at) = 3 /\ \A t \in 1..3 : \A j \in 1..Len(Ev.at[t]) : Ev.at[t][j] = At(r.s, r.p[t])
                    /\ Len(Ev.same) = 9
                    /\ \A t, u \in 1..3 : LET both == S!AtEnd(r.s, r.p[t]) /\ S!AtEnd(r.s, r.p[u]) IN
                         Ev.same[3 * (t - 1) + u] = IF Ev.byref THEN both \/ r.p[t] = r.p[u] ELSE both \/ t = u
                    /\ Ev.under = <<>> \/ Ev.under = r.s)
\* a whole loop over the scan
TLoop == IsEvent("loop") /\ Same /\ Accept(Ev.got = item /\ SizeOk(item) /\ Ev.own)
\* reading or following an iterator at the end, in a process of its own
TOver == IsEvent("over") /\ Same /\ Accept(Ev.died)
TConvert == IsEvent("convert") /\ Same
            /\ Accept(/\ Ev.out = S!Converted([j \in 1..Len(Ev.items) |-> Ev.items[j] + Ev.plus], Ev.kind)
                      /\ Ev.after = <<>> \/ Ev.after = Ev.items)
TraceNext == TReset \/ TDo \/ TLoop \/ TOver \/ TConvert
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
