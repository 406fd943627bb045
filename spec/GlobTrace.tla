----------------------------- MODULE GlobTrace -----------------------------
(* Recorded translations and splittings of patterns, judged by Globs. *)
EXTENDS TraceBase, Globs
VARIABLE texts
Ev == Trace[l]
O(r) == [ss |-> r.ss, ranges |-> r.ranges]
\* m: positions of the texts that matched; ok: accepted; xm: the same by way of the expression (texts without newline)
MatchOk(r) == LET T == Tokens(r.p, O(r)) IN
  IF IsBad(T) THEN ~r.ok
  ELSE /\ r.ok
       /\ LET E == Elements(T) IN
          /\ \A i \in 1..Len(texts) : (i \in {r.m[k] : k \in 1..Len(r.m)}) = Matches(E, texts[i])
          /\ r.xm = r.m
\* own: texts made for this pattern, with the answers
OwnOk(r) == LET T == Tokens(r.p, O(r)) IN
  IF IsBad(T) THEN ~r.ok
  ELSE r.ok /\ LET E == Elements(T) IN Len(r.own) = Len(r.m) /\ \A i \in 1..Len(r.own) : (r.m[i] = 1) = Matches(E, r.own[i])
SplitOk(r) == LET T == Tokens(r.p, O(r)) IN
  IF IsBad(T) THEN ~r.ok
  ELSE r.ok /\ LET x == Split(T) IN r.root = x.root /\ Tokens(r.rest, O(r)) = x.rest
HasClass(p) == \E i \in 1..Len(p) - 1 : (p[i] = 91 /\ p[i + 1] = 58)
\* the internal separation is documented as incomplete for classes
PartsOk(r) == LET T == Tokens(r.p, O(r)) IN
  IF IsBad(T) THEN ~r.ok
  ELSE r.ok /\ LET x == Parts(T) IN
       HasClass(r.p) \/ (\E i \in 1..Len(T) : T[i].k = "set" /\ 42 \in T[i].s) \/ (\E i \in 1..Len(r.p) : r.p[i] = 92) \/
       (r.mixed = x.mixed /\ Tokens(r.path, O(r)) = Trim(x.path) /\ Tokens(r.file, O(r)) = x.file)
TraceInit == l = 1 /\ texts = <<>>
IsEvent(e) == l <= Len(Trace) /\ Ev.op = e /\ l' = l + 1
TraceNext == \/ IsEvent("reset") /\ texts' = Ev.texts
             \/ IsEvent("match") /\ UNCHANGED texts /\ Accept(MatchOk(Ev))
             \/ IsEvent("own") /\ UNCHANGED texts /\ Accept(OwnOk(Ev))
             \/ IsEvent("split") /\ UNCHANGED texts /\ Accept(SplitOk(Ev))
             \/ IsEvent("parts") /\ UNCHANGED texts /\ Accept(PartsOk(Ev))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, texts>>
=============================================================================
