-------------------------- MODULE HashStreamTrace --------------------------
(* Recorded histories of several live hash streams, replayed on the stream   *)
(* machine: the logged events select its actions, and finalizing must show   *)
(* the hash of the specified message under the stream's seed.                *)
EXTENDS TraceBase, Hashes
CONSTANTS Streams, B, Lazy, Bytes, MaxLen, MaxChunk
VARIABLES msg, done, buf, alg, seed
DS == INSTANCE DigestStream
tvars == <<l, msg, done, buf, alg, seed>>
Ev == Trace[l]
TraceInit == l = 1 /\ DS!Init /\ alg = "none" /\ seed = [s \in Streams |-> Zero64]
IsEvent(e) == l <= Len(Trace) /\ Ev.op = e /\ l' = l + 1
TReset == IsEvent("reset") /\ msg' = DS!Empty /\ done' = DS!Empty /\ buf' = DS!Empty /\ alg' = Ev.alg /\ UNCHANGED seed
TNew == IsEvent("new") /\ DS!New(Ev.s) /\ seed' = [seed EXCEPT ![Ev.s] = Ev.seed] /\ UNCHANGED alg
TUpdate == IsEvent("update") /\ DS!Update(Ev.s, Ev.c) /\ UNCHANGED <<alg, seed>>
TCopy == IsEvent("copy") /\ DS!Copy(Ev.s, Ev.t) /\ seed' = [seed EXCEPT ![Ev.t] = seed[Ev.s]] /\ UNCHANGED alg
TPeek == /\ IsEvent("peek") /\ DS!Peek(Ev.s) /\ UNCHANGED <<alg, seed>>
         /\ Accept(LET h == Hash64Of(alg, msg[Ev.s], seed[Ev.s]) IN Ev.h = h /\ Ev.one = h)
TraceNext == TReset \/ TNew \/ TUpdate \/ TCopy \/ TPeek
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Inv == DS!NoByteLostOrReordered
=============================================================================
