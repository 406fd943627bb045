----------------------------- MODULE WalkTrace -----------------------------
(* Recorded walks of the real glob functions, replayed on Walks. *)
EXTENDS TraceBase, FiniteSets
VARIABLES up, todo, done, phase, want, gone, call
W == INSTANCE Walks WITH Trees <- {}
G == INSTANCE Globs
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.op = e /\ l' = l + 1
walk == <<up, todo, done, phase, want, gone>>
TraceInit == /\ l = 1 /\ up = <<>> /\ todo = {} /\ done = {} /\ phase = 0 /\ want = {} /\ gone = {} /\ call = <<>>
TReset == /\ IsEvent("reset") /\ up' = <<>> /\ todo' = {} /\ done' = {} /\ phase' = 0 /\ want' = {} /\ gone' = {} /\ call' = <<>>
\* A call: the entries below its root, the pattern (empty: every entry), what makes it fail at once.
Refuses == G!IsBad(G!Tokens(Ev.p, [ss |-> Ev.ss, ranges |-> Ev.ranges])) \/ Ev.noroot
Wanted == LET T == G!Tokens(Ev.p, [ss |-> Ev.ss, ranges |-> Ev.ranges]) E == G!Elements(T) IN
          {i \in 1..Len(Ev.up) : T = <<>> \/ G!Matches(E, Ev.paths[i])}
TOpen == /\ IsEvent("open") /\ call' = Ev
         /\ IF Refuses THEN /\ phase' = 3 /\ up' = Ev.up /\ todo' = {} /\ done' = {} /\ want' = {} /\ gone' = {}
            ELSE W!Open(Ev.up, Wanted, Ev.recursive)
Is(i) == /\ Ev.path = call.prefix \o <<47>> \o call.paths[i]
         /\ Ev.rel = (IF call.userel THEN call.paths[i] ELSE Ev.path)
         /\ Ev.hasrel = call.userel
         /\ Ev.depth = W!Depth(up, i)
         /\ Ev.size = call.sizes[i]
Found == {i \in todo : W!CanVisit(i) /\ Is(i)}
TVisit == /\ IsEvent("visit") /\ UNCHANGED call
          /\ IF phase = 1 /\ Found # {} THEN W!Visit(CHOOSE i \in Found : TRUE, Ev.a)
             ELSE Accept(FALSE) /\ UNCHANGED walk
CodeOk == CASE phase = 3 /\ done # {} -> Ev.code = call.fail   \* the callback's own error
            [] phase = 3 /\ call.missing -> Ev.code = (IF G!IsBad(G!Tokens(call.p, [ss |-> call.ss, ranges |-> call.ranges])) THEN Ev.code ELSE 5)
            [] OTHER -> TRUE
TClose == /\ IsEvent("close") /\ UNCHANGED call
          /\ Accept(W!CanClose(Ev.code = 0) /\ CodeOk)
          /\ phase' = 0 /\ done' = {} /\ UNCHANGED <<up, todo, want, gone>>
TThrew == IsEvent("threw") /\ UNCHANGED <<call, up, todo, want, gone>> /\ phase' = 0 /\ done' = {} /\ Accept(FALSE)
\* links in circles that are followed: there is an end (the library decides which)
TCircle == IsEvent("circle") /\ UNCHANGED <<call, walk>> /\ Accept(Ev.n < 1000)
TraceNext == TReset \/ TOpen \/ TVisit \/ TClose \/ TThrew \/ TCircle
TraceSpec == TraceInit /\ [][TraceNext]_<<l, walk, call>>
=============================================================================
