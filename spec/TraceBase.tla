----------------------------- MODULE TraceBase -----------------------------
(* Common part of every trace specification.  The trace (one JSON object per *)
(* line) is read once; l is the position of the next event.                  *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
\* An event the specification does not accept is reported with its line.
Accept(ok) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", l>>)
Consumed == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN PrintT("TRACE_CONSUMED")
            ELSE PrintT(<<"NOT CONSUMED", TLCGet("stats").diameter, Len(Trace)>>) /\ FALSE
Has(r, k) == k \in DOMAIN r
=============================================================================
