-------------------------------- MODULE Mope --------------------------------
(* Templates.  The data of a template is a sequence of entries                *)
(*   [n: name, k: "s" or "d", v: value, d: <<[id, t: entries], ..>>]          *)
(* that is values and sections with a dictionary for each time the section    *)
(* is shown.  Expansion reads a text tag by tag; the context holds what the   *)
(* text itself sets, [n, k: "s" or "r", v], r: a running loop.                *)
EXTENDS Strings, TLC
Q == INSTANCE Quoting WITH Alphabet <- {}, MaxLen <- 0, Options <- {}, opts <- 0, text <- 0, st <- 0
\* ------------------------------------------------------------------- names
Alpha(c) == c \in 65..90 \/ c \in 97..122 \/ c = 95
Digit(c) == c \in 48..57
Word(c) == Alpha(c) \/ Digit(c)
\* length of the name at position i (1-based), 0: none
NameLen(s, i) == IF i > Len(s) THEN 0 ELSE IF ~Alpha(s[i]) THEN 0
                 ELSE LET E == {k \in i..Len(s) : ~Word(s[k])} IN (IF E = {} THEN Len(s) + 1 ELSE Min(E)) - i
ValidName(s) == s # <<>> /\ NameLen(s, 1) = Len(s)
\* -------------------------------------------------------------------- tags
None == [p |-> 0, n |-> 0, sec |-> FALSE, name |-> <<>>, has |-> 0, extra |-> <<>>]
Two(s, i, c) == IF i + 1 <= Len(s) /\ i >= 1 THEN s[i] = c /\ s[i + 1] = c ELSE FALSE
TagAt(s, i) ==
  IF ~Two(s, i, 123) THEN None
  ELSE LET sec == i + 2 <= Len(s) /\ s[Min2(i + 2, Len(s))] = 35
           j == IF sec THEN i + 3 ELSE i + 2
           n == NameLen(s, j)
           m == j + n
           name == SubSeq(s, j, m - 1) IN
       IF n = 0 THEN None
       ELSE IF Two(s, m, 125) THEN [p |-> i, n |-> m + 2 - i, sec |-> sec, name |-> name, has |-> 0, extra |-> <<>>]
       ELSE IF m > Len(s) THEN None
       ELSE IF s[m] \notin {58, 61} THEN None
       ELSE LET C == {k \in (m + 1)..Len(s) : Two(s, k, 125)} IN
            IF C = {} THEN None ELSE [p |-> i, n |-> Min(C) + 2 - i, sec |-> sec, name |-> name, has |-> s[m], extra |-> SubSeq(s, m + 1, Min(C) - 1)]
NextTag(s) == LET P == {i \in 1..Len(s) : Two(s, i, 123) /\ TagAt(s, i).p > 0} IN IF P = {} THEN None ELSE TagAt(s, Min(P))
\* a tag alone on its line takes the line with it: what of the text in front stays, what is taken behind
IsBlank(c) == c \in {9, 32}
Eol(c) == c \in {10, 13}
RECURSIVE DropBlanks(_)
DropBlanks(s) == IF s # <<>> /\ IsBlank(s[Len(s)]) THEN DropBlanks(SubSeq(s, 1, Len(s) - 1)) ELSE s
\* line: does s start a line?
AtStart(s, line) == LET d == DropBlanks(s) IN IF d = <<>> THEN line ELSE Eol(d[Len(d)])
EolLen(s) == IF s = <<>> THEN 0 ELSE IF s[1] = 13 /\ Len(s) > 1 /\ s[Min2(2, Len(s))] = 10 THEN 2 ELSE IF Eol(s[1]) THEN 1 ELSE 0
Alone(before, line, after) == EolLen(after) > 0 /\ AtStart(before, line)
EndTag(name) == <<123, 123, 47>> \o name \o <<125, 125>>
\* ------------------------------------------------------------------ lookups
At(es, name) == LET P == {i \in 1..Len(es) : es[i].n = name} IN IF P = {} THEN 0 ELSE Min(P)
Missing == [k |-> "", v |-> <<>>, d |-> <<>>]
Lookup(es, ctx, name) == LET a == At(es, name) b == At(ctx, name) IN
  IF a > 0 THEN [k |-> es[a].k, v |-> es[a].v, d |-> es[a].d] ELSE IF b > 0 THEN [k |-> ctx[b].k, v |-> ctx[b].v, d |-> <<>>] ELSE Missing
Put(ctx, name, k, v) == LET b == At(ctx, name) e == [n |-> name, k |-> k, v |-> v] IN IF b > 0 THEN [ctx EXCEPT ![b] = e] ELSE Append(ctx, e)
Erase(ctx, name) == SelectSeq(ctx, LAMBDA e : e.n # name)
\* ------------------------------------------------------------------ numbers
RECURSIVE Decimal(_)
Decimal(n) == IF n < 0 THEN <<45>> \o Decimal(0 - n) ELSE IF n < 10 THEN <<48 + n>> ELSE Decimal(n \div 10) \o <<48 + (n % 10)>>
Sp(c) == c \in {9, 10, 11, 12, 13, 32}
RECURSIVE LTrim(_), RTrim(_), Zeros(_), ToNum(_)
LTrim(s) == IF s # <<>> /\ Sp(s[1]) THEN LTrim(Tail(s)) ELSE s
RTrim(s) == IF s # <<>> /\ Sp(s[Len(s)]) THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Zeros(s) == IF Len(s) > 1 /\ s[1] = 48 THEN Zeros(Tail(s)) ELSE s
ToNum(s) == IF s = <<>> THEN 0 ELSE (ToNum(SubSeq(s, 1, Len(s) - 1)) * 10) + (s[Len(s)] - 48)
MaxInt == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>
\* <<ok, value>> of a 32 bit number (-2^31 is left out of the specification)
Atoi(raw) == LET t == RTrim(LTrim(raw))
                 signed == t # <<>> /\ t[1] \in {43, 45}
                 d == IF signed THEN Tail(t) ELSE t
                 z == Zeros(d) IN
  IF d = <<>> \/ \E i \in 1..Len(d) : ~Digit(d[i]) THEN <<FALSE, 0>>
  ELSE IF Len(z) > 10 \/ (Len(z) = 10 /\ CmpStr(z, MaxInt) > 0) THEN <<FALSE, 0>>
  ELSE <<TRUE, IF signed /\ t[1] = 45 THEN 0 - ToNum(z) ELSE ToNum(z)>>
\* ------------------------------------------------------------------- errors
OkC == 0
Invalid == 3
NotFound == 5
Exists == 6
Unimplemented == 12
FromScan(done) == IF done = 2 THEN Invalid ELSE Unimplemented
Bare == [stop |-> <<>>, stopstr |-> <<>>, split |-> <<>>, esc |-> <<40, 41, 123, 125, 91, 93, 60, 62, 44, 59, 38>>, dq |-> TRUE, sq |-> TRUE, rmq |-> TRUE, unq |-> FALSE]
Quotes == {34, 39}
\* a joiner: nothing, a literal or a reference; <<code, text>>
Joiner(data, es, ctx) ==
  IF data = <<>> THEN <<OkC, <<>>>>
  ELSE IF data[1] \in Quotes /\ data[Len(data)] \in Quotes
  THEN LET t == Q!Parse(Bare, data, 0) IN
       IF t.done # 1 THEN <<FromScan(t.done), <<>>>> ELSE IF t.i < Len(data) THEN <<Invalid, <<>>>> ELSE <<OkC, t.out>>
  ELSE LET f == Lookup(es, ctx, data) IN
       IF f.k = "" THEN <<NotFound, <<>>>> ELSE IF f.k = "s" THEN <<OkC, f.v>> ELSE <<Invalid, <<>>>>
\* a number of a loop; <<code, value>>
Number(data, other, es, ctx) ==
  IF data = <<>> THEN <<OkC, other>>
  ELSE LET a == Atoi(data) IN
       IF a[1] THEN <<OkC, a[2]>>
       ELSE LET f == Lookup(es, ctx, data) v == Atoi(f.v) IN
            IF f.k = "" THEN <<NotFound, 0>>
            ELSE IF f.k = "s" THEN (IF v[1] THEN <<OkC, v[2]>> ELSE <<Invalid, 0>>)
            ELSE IF f.k = "r" THEN <<OkC, v[2]>> ELSE <<Invalid, 0>>
\* what a loop is configured with: [ok, start, end, step, join]
Operand(s) == IF s = <<>> THEN FALSE ELSE ValidName(s) \/ LET d == IF s[1] = 45 THEN Tail(s) ELSE s IN d # <<>> /\ \A i \in 1..Len(d) : Digit(d[i])
ReSp(c) == c \in {9, 10, 12, 13, 32}
RECURSIVE LTr(_), RTr(_)
LTr(s) == IF s # <<>> /\ ReSp(s[1]) THEN LTr(Tail(s)) ELSE s
RTr(s) == IF s # <<>> /\ ReSp(s[Len(s)]) THEN RTr(SubSeq(s, 1, Len(s) - 1)) ELSE s
Loop(config) ==
  LET p == SplitAt(config, 59) n == Len(p) f(i) == IF i <= n THEN RTr(LTr(p[i])) ELSE <<>> IN
  [ok |-> n \in 2..4 /\ Operand(f(1)) /\ (IF n >= 2 THEN Operand(f(2)) ELSE FALSE) /\ (f(3) = <<>> \/ Operand(f(3))),
   start |-> f(1), end |-> f(2), step |-> f(3), join |-> IF n = 4 THEN p[4] ELSE <<>>]
RECURSIVE Values(_, _, _)
Values(a, b, step) == IF (step > 0 /\ a > b) \/ (step < 0 /\ a < b) THEN <<>>
                      ELSE IF (step > 0 /\ a > b - step) \/ (step < 0 /\ a < b - step) THEN <<a>> ELSE <<a>> \o Values(a + step, b, step)
\* ----------------------------------------- how often a section is shown, and with what
\* [code, kind: "none", "dict", "loop" or "list", items, join]
Plan(code, kind, items, join) == [code |-> code, kind |-> kind, items |-> items, join |-> join]
Fail(code) == Plan(code, "none", <<>>, <<>>)
ListOpts == [Bare EXCEPT !.stop = <<93>>, !.split = <<44>>, !.unq = TRUE]
PlanOf(tag, es, ctx) ==
  IF tag.has # 61 THEN
    LET f == Lookup(es, ctx, tag.name) IN
    IF f.k = "" THEN Plan(OkC, "dict", <<>>, <<>>)
    ELSE IF f.k # "d" THEN Fail(Invalid)
    ELSE LET j == IF tag.has = 58 THEN Joiner(tag.extra, es, ctx) ELSE <<OkC, <<>>>> IN
         IF j[1] # OkC THEN Fail(j[1]) ELSE Plan(OkC, "dict", f.d, j[2])
  ELSE LET r == Loop(tag.extra) IN
    IF r.ok THEN
      LET a == Number(r.start, 0, es, ctx) b == Number(r.end, 0, es, ctx) s == Number(r.step, 1, es, ctx) j == Joiner(r.join, es, ctx) IN
      IF a[1] # OkC THEN Fail(a[1]) ELSE IF b[1] # OkC THEN Fail(b[1]) ELSE IF s[1] # OkC THEN Fail(s[1]) ELSE IF j[1] # OkC THEN Fail(j[1])
      ELSE IF s[2] = 0 \/ At(ctx, tag.name) > 0 THEN Fail(Invalid)
      ELSE Plan(OkC, "loop", Values(a[2], b[2], s[2]), j[2])
    ELSE IF tag.extra = <<>> THEN Plan(OkC, "dict", <<>>, <<>>)
    ELSE IF tag.extra[1] # 91 THEN Fail(Unimplemented)
    ELSE LET t == Q!ParseList(ListOpts, Tail(tag.extra))
             rest == From(tag.extra, 1 + t.i) IN
         IF t.done # 1 THEN Fail(FromScan(t.done))
         ELSE IF rest = <<>> THEN Fail(Invalid)
         ELSE IF rest[1] # 93 THEN Fail(Invalid)
         ELSE LET tail == Tail(rest)
                  bad == tail # <<>> /\ (Len(tail) < 2 \/ tail[1] # 59)
                  j == IF tail = <<>> \/ bad THEN <<OkC, <<>>>> ELSE Joiner(Tail(tail), es, ctx) IN
              IF bad THEN Fail(Invalid) ELSE IF j[1] # OkC THEN Fail(j[1])
              ELSE IF Lookup(es, ctx, tag.name).k # "" THEN Fail(Invalid)
              ELSE Plan(OkC, "list", t.outs, j[2])
\* ---------------------------------------------------------------- expansion
Result(code, out, ctx) == [code |-> code, out |-> out, ctx |-> ctx]
RECURSIVE Go(_, _, _, _), Times(_, _, _, _, _, _, _)
\* out: what is done, rest: what is to be read
Go(es, ctx, out, rest) ==
  LET tag == NextTag(rest) IN
  IF tag.p = 0 THEN Result(OkC, out \o rest, ctx)
  ELSE LET before == out \o SubSeq(rest, 1, tag.p - 1)
           after == From(rest, tag.p + tag.n - 1)
           alone == (tag.sec \/ tag.has = 61) /\ Alone(before, TRUE, after)
           kept == IF alone THEN DropBlanks(before) ELSE before
           next == IF alone THEN From(after, EolLen(after)) ELSE after IN
    IF tag.sec THEN
      LET e == Find(next, EndTag(tag.name))
          raw == SubSeq(next, 1, e)
          behind == From(next, e + Len(tag.name) + 5)
          lone == Alone(raw, alone, behind)
          body == IF lone THEN DropBlanks(raw) ELSE raw
          plan == PlanOf(tag, es, ctx) IN
      IF e < 0 THEN Result(Invalid, <<>>, ctx)
      ELSE IF plan.code # OkC THEN Result(plan.code, <<>>, ctx)
      ELSE LET r == Times(es, ctx, tag.name, plan, body, 1, <<>>) IN
           IF r.code # OkC THEN r ELSE Go(es, r.ctx, kept \o r.out, IF lone THEN From(behind, EolLen(behind)) ELSE behind)
    ELSE IF tag.extra # <<>> THEN \* sets a value, or says nothing
      IF tag.has # 61 THEN Go(es, ctx, kept, next)
      ELSE IF At(es, tag.name) > 0 THEN Result(Invalid, <<>>, ctx)
      ELSE IF At(ctx, tag.name) > 0 /\ Lookup(<<>>, ctx, tag.name).k # "s" THEN Result(Exists, <<>>, ctx)
      ELSE Go(es, Put(ctx, tag.name, "s", tag.extra), kept, next)
    ELSE LET f == Lookup(es, ctx, tag.name) IN
         IF f.k = "" THEN Go(es, ctx, before \o SubSeq(rest, tag.p, tag.p + tag.n - 1) \o (IF alone THEN SubSeq(after, 1, EolLen(after)) ELSE <<>>), next)
         ELSE IF f.k = "d" THEN Result(Unimplemented, <<>>, ctx)
         ELSE Go(es, ctx, kept \o f.v, next)
Times(es, ctx, name, plan, body, k, out) ==
  IF k > Len(plan.items) THEN Result(OkC, out, IF plan.kind = "dict" THEN ctx ELSE Erase(ctx, name))
  ELSE LET r == CASE plan.kind = "dict" -> Go(plan.items[k].t, ctx, <<>>, body)
                  [] plan.kind = "loop" -> Go(es, Put(ctx, name, "r", Decimal(plan.items[k])), <<>>, body)
                  [] OTHER -> Go(es, Put(ctx, name, "s", plan.items[k]), <<>>, body) IN
       IF r.code # OkC THEN r ELSE Times(es, r.ctx, name, plan, body, k + 1, out \o (IF k > 1 THEN plan.join ELSE <<>>) \o r.out)
Expand(es, ctx, text) == Go(es, ctx, <<>>, text)
\* ------------------------------------------------------ the data and its edits
Entry(n, k, v, d) == [n |-> n, k |-> k, v |-> v, d |-> d]
SetCode(es, name, upd) == LET a == At(es, name) IN
  IF ~ValidName(name) THEN Invalid ELSE IF a = 0 THEN OkC ELSE IF upd /\ es[a].k = "s" THEN OkC ELSE Exists
SetTo(es, name, value) == LET a == At(es, name) IN IF a = 0 THEN Append(es, Entry(name, "s", value, <<>>)) ELSE [es EXCEPT ![a].v = value]
AddCode(es, name) == LET a == At(es, name) IN IF ~ValidName(name) THEN Invalid ELSE IF a = 0 THEN OkC ELSE IF es[a].k = "d" THEN OkC ELSE Exists
AddTo(es, name, item) == LET a == At(es, name) IN IF a = 0 THEN Append(es, Entry(name, "d", <<>>, <<item>>)) ELSE [es EXCEPT ![a].d = Append(@, item)]
\* nodes: all dictionaries by number; an item is a number or (0) a frozen tree
RECURSIVE Tree(_, _)
Tree(nodes, es) == [i \in 1..Len(es) |-> [es[i] EXCEPT !.d = [k \in 1..Len(@) |-> [id |-> 0, t |-> IF @[k].id = 0 THEN @[k].t ELSE Tree(nodes, nodes[@[k].id])]]]]
\* ---- groups of settings: <<group, <<<<key, value>>, ..>>>>; sections by path <<name, index>>
\* st: [code, nodes, paths: <<<<path, node>>, ..>>]; node 1 is the root
Level(s) == LET p == Find(s, <<58>>) IN IF p < 0 THEN <<s, <<>>>> ELSE <<SubSeq(s, 1, p), From(s, p + 1)>>
PathAt(paths, path) == LET P == {i \in 1..Len(paths) : paths[i][1] = path} IN IF P = {} THEN 0 ELSE paths[Min(P)][2]
RECURSIVE Descend(_, _, _, _)
Descend(st, levels, k, at) ==
  IF st.code # OkC \/ k > Len(levels) THEN <<st, at>>
  ELSE LET path == [i \in 1..k |-> Level(levels[i])] known == PathAt(st.paths, path) name == path[k][1] code == AddCode(st.nodes[at], name) IN
       IF known > 0 THEN Descend(st, levels, k + 1, known)
       ELSE IF code # OkC THEN <<[st EXCEPT !.code = code], at>>
       ELSE LET id == Len(st.nodes) + 1 IN
            Descend([st EXCEPT !.nodes = Append([@ EXCEPT ![at] = AddTo(@, name, [id |-> id, t |-> <<>>])], <<>>), !.paths = Append(@, <<path, id>>)], levels, k + 1, id)
Group(st, g) ==
  LET d == Descend(st, IF g[1] = <<>> THEN <<>> ELSE SplitAt(g[1], 46), 1, 1) at == d[2] IN
  FoldLeft(LAMBDA s, kv : IF s.code # OkC THEN s
                          ELSE LET code == SetCode(s.nodes[at], kv[1], FALSE) IN
                               IF code # OkC THEN [s EXCEPT !.code = code] ELSE [s EXCEPT !.nodes[at] = SetTo(@, kv[1], kv[2])], d[1], g[2])
\* a level without a name in front is the root itself
RootPaths == <<<<<<<<<<>>, <<>>>>>>, 1>>>>
FromGroups(gs, es) == FoldLeft(LAMBDA s, g : IF s.code # OkC THEN s ELSE Group(s, g), [code |-> OkC, nodes |-> <<es>>, paths |-> RootPaths], gs)
=============================================================================
