---------------------------- MODULE StringsTrace ----------------------------
EXTENDS TraceBase, Indents
Q == INSTANCE Quoting WITH Alphabet <- {}, MaxLen <- 0, Options <- {}, opts <- 0, text <- 0, st <- 0
\* code: 0 read, 2 malformed, 3 not supported, 9 another error
Code(done) == IF done = 1 THEN 0 ELSE done
OneOk(r) == LET t == Q!Parse(r.o, r.in, 0) IN
            r.code = Code(t.done) /\ (r.code = 0 => r.out = t.out /\ r.rest = From(r.in, t.i) /\ r.tail)
ListOk(r) == LET t == Q!ParseList(r.o, r.in) IN
             r.code = Code(t.done) /\ (r.code = 0 => r.outs = t.outs /\ r.rest = From(r.in, t.i) /\ r.tail)
\* --------------------------------------------------------------- stripping
Blank == {9, 10, 11, 12, 13, 32}
RECURSIVE RTrim(_)
RTrim(s) == IF s # <<>> /\ s[Len(s)] \in Blank THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
StripLine(s, mark, trim) == LET p == Find(s, mark) IN
  IF p < 0 THEN s ELSE IF trim THEN RTrim(SubSeq(s, 1, p)) ELSE SubSeq(s, 1, p)
StripText(s, mark, trim) == LET ls == SplitAt(s, 10) IN JoinSeq([i \in 1..Len(ls) |-> StripLine(ls[i], mark, trim)], <<10>>)
\* by parsing: <<ok, text>>
ParsedLine(s, o, trim) == LET t == Q!Parse(o, s, 0) IN <<t.done = 1, IF trim THEN RTrim(t.out) ELSE t.out>>
ParsedText(s, o, trim) == LET ls == SplitAt(s, 10)
                              ps == [i \in 1..Len(ls) |-> ParsedLine(ls[i], o, trim)]
                          IN <<\A i \in 1..Len(ls) : ps[i][1], JoinSeq([i \in 1..Len(ls) |-> ps[i][2]], <<10>>)>>
ParsedOk(r, want) == r.ok = want[1] /\ (r.ok => r.out = want[2])
Prefix(r) == LET h == StartsWith(r.in, r.x) w == IF h THEN From(r.in, Len(r.x)) ELSE r.in IN r.had = h /\ r.left = w /\ r.stripped = w
Suffix(r) == LET h == EndsWith(r.in, r.x) w == IF h THEN SubSeq(r.in, 1, Len(r.in) - Len(r.x)) ELSE r.in IN r.had = h /\ r.left = w /\ r.stripped = w
\* ----------------------------------------------------------------- numbers
\* limbs of 16 bits, least significant first
RECURSIVE DivTen(_, _)
DivTen(limbs, rem) == \* most significant first; <<quotient limbs, remainder>>
  IF limbs = <<>> THEN <<<<>>, rem>>
  ELSE LET x == rem * 65536 + limbs[1] r == DivTen(Tail(limbs), x % 10) IN <<<<x \div 10>> \o r[1], r[2]>>
RECURSIVE Digits(_)
Digits(limbs) == IF \A i \in 1..Len(limbs) : limbs[i] = 0 THEN <<>> ELSE LET d == DivTen(limbs, 0) IN Append(Digits(d[1]), 48 + d[2])
Magnitude(limbs) == LET d == Digits(Rev(limbs)) IN IF d = <<>> THEN <<48>> ELSE d
RECURSIVE Group(_)
Group(d) == IF Len(d) <= 3 THEN d ELSE Group(SubSeq(d, 1, Len(d) - 3)) \o <<39>> \o SubSeq(d, Len(d) - 2, Len(d))
BigNum(r) == (IF r.neg THEN <<45>> ELSE <<>>) \o Group(Magnitude(r.mag))
\* -------------------------------------------------------------- splitting
AtLastPos(s, c, p) == LET O == {i \in p..(Len(s) - 1) : s[i + 1] = c} IN IF O = {} THEN -1 ELSE Max(O)
SplitLast(s, c) == LET p == AtLastPos(s, c, 0) IN IF p < 0 THEN <<s>> ELSE <<SubSeq(s, 1, p), From(s, p + 1)>>

CallOk(r) ==
  CASE r.op = "one" -> OneOk(r)
    [] r.op = "list" -> ListOk(r)
    [] r.op = "line" -> r.out = StripLine(r.in, r.mark, r.trim)
    [] r.op = "strip" -> r.out = StripText(r.in, r.mark, r.trim)
    [] r.op = "pline" -> ParsedOk(r, ParsedLine(r.in, r.o, r.trim))
    [] r.op = "pstrip" -> ParsedOk(r, ParsedText(r.in, r.o, r.trim))
    [] r.op = "prefix" -> Prefix(r)
    [] r.op = "suffix" -> Suffix(r)
    [] r.op = "indent" -> r.lines = Lines(r.in) /\ r.out = Dropped(r.in)
    [] r.op = "number" -> r.out = BigNum(r) /\ r.len = Len(r.out)
    [] r.op = "contains" -> \A i \in 1..Len(r.b) : r.b[i] = HasSub(r.in, r.x)
    [] r.op = "find" -> r.pos = AtLastPos(r.in, r.c, r.from)   \* -1: none, told as an empty text at the end
    [] r.op = "split" -> r.parts = SplitLast(r.in, r.c)
    [] OTHER -> FALSE
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Accept(CallOk(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
