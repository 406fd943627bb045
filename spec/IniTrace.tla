------------------------------ MODULE IniTrace ------------------------------
(* Recorded histories of real INI files, replayed on Ini. *)
EXTENDS TraceBase, FiniteSets
VARIABLES data, last
I == INSTANCE Ini WITH Texts <- {}, Names <- {}
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.op = e /\ l' = l + 1
TraceInit == l = 1 /\ data = {} /\ last = <<>>
Same == UNCHANGED <<data, last>>
SetOf(s) == {s[i] : i \in 1..Len(s)}
Exactly(s, S) == Len(s) = Cardinality(S) /\ SetOf(s) = S
\* everything a file tells: entries, groups, sizes
ShowOk(r, d) == Exactly(r.es, d) /\ Exactly(r.gs, I!Groups(d)) /\ r.size = Cardinality(d) /\ r.empty = (d = {})
TReset == IsEvent("reset") /\ data' = {} /\ last' = <<>> /\ Accept(ShowOk(Ev, {}))
TLoad == IsEvent("load") /\ I!Load(Ev.t) /\ Accept(ShowOk(Ev, I!Parse(Ev.t)))
TSet == IsEvent("set") /\ I!Set(Ev.g, Ev.k, Ev.v) /\ Accept(ShowOk(Ev, data'))
TGet == /\ IsEvent("get") /\ Same
        /\ LET g == I!Strip(Ev.g) k == I!Strip(Ev.k) h == I!Has(data, g, k) IN
           Accept(/\ Ev.has = h
                  /\ Ev.code = IF h THEN 0 ELSE 5
                  /\ (h => Ev.v = I!Get(data, g, k))
                  /\ Ev.dv = IF h THEN I!Get(data, g, k) ELSE Ev.def
                  /\ Exactly(Ev.gd, {<<e[2], e[3]>> : e \in {e \in data : e[1] = g}}))
\* written text says the same, and is read the same (if it can be expressed)
Fits == \A e \in data : I!Expressible(e)
TWrite == /\ IsEvent("write") /\ Same
          /\ Accept(Ev.ok /\ (Fits => I!Parse(Ev.t) = data) /\ ShowOk(Ev, I!Parse(Ev.t)))
TNoRead == IsEvent("noread") /\ Same /\ Accept(FALSE)
TraceNext == TNoRead \/ TReset \/ TLoad \/ TSet \/ TGet \/ TWrite
TraceSpec == TraceInit /\ [][TraceNext]_<<l, data, last>>
=============================================================================
