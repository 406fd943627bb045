----------------------------- MODULE TimingTrace -----------------------------
(* Histories of real timing scopes with a clock that only the history moves, replayed on Timing; and names of functions. *)
EXTENDS TraceBase
VARIABLES now, minDur, minSev, logMin, open, logs, ended
T == INSTANCE Timing WITH Ids <- {}, Ticks <- 0, MaxEnded <- 0
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.op = e /\ l' = l + 1
mvars == <<now, minDur, minSev, logMin, open, logs, ended>>
tvars == <<l, now, minDur, minSev, logMin, open, logs, ended>>
TraceInit == l = 1 /\ T!Init
TReset == IsEvent("reset") /\ now' = 0 /\ minDur' = 2000 /\ minSev' = 2 /\ logMin' = 0 /\ open' = <<>> /\ logs' = <<>> /\ ended' = <<>>
Quiet == Accept(Ev.seen = <<>>)
TMake == IsEvent("make") /\ T!Make(Ev.id, T!Scope(Ev.sev, Ev.min, Ev.start, Ev.file, Ev.line, Ev.fn, Ev.msg)) /\ Quiet
TStream == IsEvent("stream") /\ T!Stream(Ev.id, Ev.text) /\ Quiet
TMove == IsEvent("move") /\ T!Move(Ev.id, Ev.to) /\ Quiet
TClock == IsEvent("clock") /\ T!Clock(Ev.ms) /\ Quiet
TDur == IsEvent("mindur") /\ T!SetMinDur(Ev.ms) /\ Quiet
TSev == IsEvent("minsev") /\ T!SetMinSev(Ev.sev) /\ Quiet
TLog == IsEvent("logmin") /\ T!SetLogMin(Ev.sev) /\ Quiet
TEnd == IsEvent("end") /\ UNCHANGED <<now, minDur, minSev, logMin, logs, ended>>
        /\ Ev.id \in DOMAIN open
        /\ LET sc == open[Ev.id] IN Accept(Ev.seen = IF T!Logs(sc) THEN <<T!Line(sc, now - sc.start)>> ELSE <<>>)
        /\ open' = [i \in DOMAIN open \ {Ev.id} |-> open[i]]
\* the flags as they are without having been set
TFlags == IsEvent("flags") /\ UNCHANGED mvars /\ Accept(Ev.dur = 2000 /\ Ev.sev = 2)
TName == IsEvent("name") /\ UNCHANGED mvars /\ Accept(Ev.text = T!Text(Ev.f) /\ Ev.got = T!Name(Ev.f))
\* a function of the driver: its name is written down next to it
TReal == IsEvent("real") /\ UNCHANGED mvars /\ Accept(Ev.got = Ev.want)
TOther == /\ l <= Len(Trace) /\ Ev.op \notin {"reset", "make", "stream", "move", "clock", "mindur", "minsev", "logmin", "end", "flags", "name", "real"}
          /\ l' = l + 1 /\ UNCHANGED mvars /\ Accept(FALSE)
TraceNext == TReset \/ TMake \/ TStream \/ TMove \/ TClock \/ TDur \/ TSev \/ TLog \/ TEnd \/ TFlags \/ TName \/ TReal \/ TOther
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
