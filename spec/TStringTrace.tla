---------------------------- MODULE TStringTrace ----------------------------
(* Compile-time strings answer like the byte string they denote.             *)
EXTENDS TraceBase, Strings
PairOk(r) ==
  LET a == r.a b == r.b E == Elems(b) IN
  /\ r.find = (IF b = <<>> THEN 0 ELSE Find(a, b))
  /\ r.rfind = (IF b = <<>> THEN Len(a) ELSE RFind(a, b))
  /\ r.sw = StartsWith(a, b) /\ r.ew = EndsWith(a, b) /\ r.co = HasSub(a, b)
  /\ Len(r.eqs) = 6 /\ AllEqual(r.eqs, IF a = b THEN 1 ELSE 0)
  /\ Len(r.cmps) = 6 /\ AllEqual(r.cmps, CmpStr(a, b))
  /\ r.cat = a \o b
  /\ r.hasheq = (a = b)
  /\ Len(r.fo) = Len(a) + 4 /\ Len(r.lo) = Len(a) + 5
  /\ \A i \in 1..(Len(a) + 3) : r.fo[i] = FirstOf(a, E, i - 1) /\ r.lo[i] = LastOf(a, E, i - 1)
  /\ r.fo[Len(a) + 4] = FirstOf(a, E, 0)
  /\ \A i \in (Len(a) + 4)..(Len(a) + 5) : r.lo[i] = LastOf(a, E, Len(a))
OneOk(r) ==
  LET s == r.s n == Len(s) IN
  /\ AllEqual(r.sizes, n) /\ r.empty = (n = 0)
  /\ r.it = s /\ r.cit = s /\ r.rit = Rev(s) /\ r.conv = s /\ r.os = s /\ r.term = 0 /\ r.cstr = s
  /\ Len(r.sub) = n + 2 /\ Len(r.rt) = n + 2
  /\ \A p \in 0..(n + 1) : /\ r.subtail[p + 1] = From(s, p) /\ r.rtail[p + 1] = From(s, p)
                           /\ \A c \in 0..(n + 1) : r.sub[p + 1][c + 1] = Substr(s, p, c) /\ r.rt[p + 1][c + 1] = Substr(s, p, c)
  /\ r.ends = (IF n = 0 THEN <<>> ELSE <<s[1], s[n]>>)
  /\ r.shash
  /\ \A k \in 1..Len(r.chars) : LET q == r.chars[k] IN
       /\ q.f0 = FirstOf(s, {q.c}, 0) /\ q.l0 = LastOf(s, {q.c}, n)
       /\ \A p \in 0..(n + 2) : q.fo[p + 1] = FirstOf(s, {q.c}, p) /\ q.lo[p + 1] = LastOf(s, {q.c}, p)
CallOk(r) == CASE r.op = "pair" -> PairOk(r)
               [] r.op = "one" -> OneOk(r)
               [] r.op = "lit" -> r.got = r.want
               [] r.op = "distinct" -> r.h = r.n /\ r.s = r.n
               [] OTHER -> FALSE
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Accept(CallOk(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
