--------------------------- MODULE MatchersTrace ---------------------------
(* Verdicts of real matchers and runs of the test macros.                    *)
EXTENDS TraceBase, Matchers
Txt(s) == CASE s = "elem" -> <<101, 108, 101, 109, 101, 110, 116, 32, 111, 102, 32>>       \* "element of "
            [] s = "key" -> <<97, 32, 107, 101, 121, 32, 111, 102, 32>>                    \* "a key of "
            [] s = "value" -> <<97, 32, 118, 97, 108, 117, 101, 32, 111, 102, 32>>         \* "a value of "
IsSp == <<105, 115, 32>>
NotSp == <<110, 111, 116, 32>>
EqualsNo == <<119, 104, 105, 99, 104, 32, 101, 113, 117, 97, 108, 115, 32, 101, 108, 101, 109, 101, 110, 116, 32, 35>>  \* "which equals element #"
Said(r) ==
  r.kind = "int" /\ r.m.k \in Members =>
    LET c == Candidates(r.m) IN
    /\ r.is = IsSp \o Txt(r.m.k) \o Listed(c)
    /\ r.isnt = IsSp \o NotSp \o Txt(r.m.k) \o Listed(c)
    /\ r.note = IF Holds(r.m, r.v) THEN EqualsNo \o NumText(FirstAt(c, r.v)) \o <<32, 40>> \o NumText(r.v) \o <<41>> ELSE <<>>
Bit(b) == IF b THEN 1 ELSE 0
EventOk(r) ==
  CASE r.op = "match" -> (\A i \in 1..Len(r.got) : r.got[i] = Bit(Holds(r.m, r.v))) /\ Said(r)
    [] r.op = "hetero" -> \A i \in 1..Len(r.got) : r.got[i] = Bit(\E j \in 1..Len(r.s) : r.s[j] = r.v)
    [] r.op = "stored" -> r.fine
    [] r.op = "none" -> \A i \in 1..Len(r.got) : r.got[i] = 1
    [] r.op = "macros" -> LET w == RunAll(r.steps) IN r.log = w.log /\ r.sum = w.sum /\ r.soft = w.soft /\ r.hard = w.hard
    [] OTHER -> FALSE
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Accept(EventOk(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
