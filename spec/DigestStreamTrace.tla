------------------------- MODULE DigestStreamTrace -------------------------
(* Recorded histories of several live streams, replayed on DigestStream: the *)
(* logged events select its actions, and every peek must show the digest     *)
(* (by the standards' definitions) of the specified message.                 *)
EXTENDS TraceBase, Digests
CONSTANTS Streams, B, Lazy, Bytes, MaxLen, MaxChunk
VARIABLES msg, done, buf, alg
DS == INSTANCE DigestStream
tvars == <<l, msg, done, buf, alg>>
Ev == Trace[l]
TraceInit == l = 1 /\ DS!Init /\ alg = "none"
IsEvent(e) == l <= Len(Trace) /\ Ev.op = e /\ l' = l + 1
TReset == IsEvent("reset") /\ msg' = DS!Empty /\ done' = DS!Empty /\ buf' = DS!Empty /\ alg' = Ev.alg
TNew == IsEvent("new") /\ DS!New(Ev.s) /\ UNCHANGED alg
TUpdate == IsEvent("update") /\ DS!Update(Ev.s, Ev.c) /\ UNCHANGED alg
TCopy == IsEvent("copy") /\ DS!Copy(Ev.s, Ev.t) /\ UNCHANGED alg
TPeek == /\ IsEvent("peek") /\ DS!Peek(Ev.s) /\ UNCHANGED alg
         /\ Accept(LET h == Hex(Digest(alg, msg[Ev.s])) IN Ev.hex = h /\ Ev.one = h)
TraceNext == TReset \/ TNew \/ TUpdate \/ TCopy \/ TPeek
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Inv == DS!NoByteLostOrReordered
=============================================================================
