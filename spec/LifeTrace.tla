----------------------------- MODULE LifeTrace -----------------------------
(* Recorded lives of the elements of real containers, replayed on Lifetimes. *)
EXTENDS TraceBase, FiniteSets
VARIABLES alive, made, gone
L == INSTANCE Lifetimes WITH Places <- {0}
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.op = e /\ l' = l + 1
tvars == <<l, alive, made, gone>>
TraceInit == l = 1 /\ L!Init
TReset == IsEvent("reset") /\ alive' = {} /\ made' = 0 /\ gone' = 0
Count(es, ks) == Len(SelectSeq(es, LAMBDA e : e[1] \in ks))
TLife == /\ IsEvent("life")
         /\ LET r == L!Run(alive, Ev.ev) IN
            /\ alive' = r.a /\ made' = made + Count(Ev.ev, {0, 1, 2}) /\ gone' = gone + Count(Ev.ev, {5})
            /\ Accept(r.ok /\ \A t \in 1..Len(Ev.sizes) : L!Exact(r.a, t, Ev.sizes[t], Ev.per))
\* all containers and all other objects of the history are gone, up to those which are never to go
TEnd == /\ IsEvent("end") /\ UNCHANGED <<alive, made, gone>>
        /\ LET n == IF Has(Ev, "left") THEN Ev.left ELSE 0 IN Accept(Cardinality(alive) = n /\ made = gone + n)
TOther == l <= Len(Trace) /\ Ev.op \notin {"reset", "life", "end"} /\ l' = l + 1 /\ UNCHANGED <<alive, made, gone>>
TraceNext == TReset \/ TLife \/ TEnd \/ TOther
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
