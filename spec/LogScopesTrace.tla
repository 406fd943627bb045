--------------------------- MODULE LogScopesTrace ---------------------------
(* Recorded histories of real scoped streams and checks, replayed on LogScopes. *)
EXTENDS TraceBase
VARIABLES open, out, ended, closed, live
S == INSTANCE LogScopes WITH NSink <- 4, MaxLen <- 0
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.op = e /\ l' = l + 1
tvars == <<l, open, out, ended, closed, live>>
Start == open = <<>> /\ out = [s \in 1..4 |-> <<>>] /\ ended = FALSE /\ closed = <<>>
TraceInit == l = 1 /\ Start /\ live = TRUE
\* live: the sinks are observed after each step; otherwise only once the program has ended
TReset == IsEvent("reset") /\ open' = <<>> /\ out' = [s \in 1..4 |-> <<>>] /\ ended' = FALSE /\ closed' = <<>> /\ live' = Ev.live
\* what was added to the sinks by this step
Added(o, n) == [s \in 1..4 |-> SubSeq(n[s], Len(o[s]) + 1, Len(n[s]))]
Seen == ~live \/ LET a == Added(out, out') IN /\ Len(Ev.seen) = 4 /\ \A s \in 1..4 : Ev.seen[s] = a[s]
TOpen == IsEvent("open") /\ UNCHANGED live
         /\ S!Open(Ev.id, S!Scope(Ev.sink, S!Prefix(Ev.file, Ev.line, Ev.func), Ev.msg, Ev.keeps, Ev.quits)) /\ Accept(Seen)
TStream == IsEvent("stream") /\ UNCHANGED live /\ S!Stream(Ev.id, Ev.parts) /\ Accept(Seen)
TClose == IsEvent("close") /\ UNCHANGED live /\ S!Close(Ev.id) /\ Accept(Seen)
\* the text of a stream so far can be looked at
TPeek == IsEvent("peek") /\ UNCHANGED <<open, out, ended, closed, live>>
         /\ Accept(Ev.text = IF open[Ev.id].keeps THEN open[Ev.id].body ELSE <<>>)
\* a checked condition: evaluated once; its message, of the given number of parts, only when it fails
TEval == IsEvent("eval") /\ UNCHANGED <<open, out, ended, closed, live>>
         /\ Accept(Ev.conds = 1 /\ Ev.holds /\ Ev.msgs = 0 /\ Ev.seen = <<<<>>, <<>>, <<>>, <<>>>>)
TEnd == /\ IsEvent("end") /\ UNCHANGED <<open, out, ended, closed, live>>
        \* fate: 0 the history was played to its end, 1 ended before that with status 1
        /\ Accept(Ev.fate = (IF ended THEN 1 ELSE 0) /\ Len(Ev.outs) = 4 /\ \A s \in 1..4 : Ev.outs[s] = out[s])
TraceNext == TReset \/ TOpen \/ TStream \/ TClose \/ TPeek \/ TEval \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
