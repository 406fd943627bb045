------------------------------ MODULE MdTables ------------------------------
(* Markdown documents: a sequence of lines (code points), read line by line *)
(* by a machine that knows fenced code and tables; and how an aligned       *)
(* document may differ from the document it was made of.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Pipe == 124
Bsl == 92
Blank(c) == c \in {32, 9}
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE LStrip(_), RStrip(_)
LStrip(s) == IF s # <<>> /\ Blank(s[1]) THEN LStrip(Tail(s)) ELSE s
RStrip(s) == IF s # <<>> /\ Blank(s[Len(s)]) THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s) == RStrip(LStrip(s))
Indent(s) == SubSeq(s, 1, Len(s) - Len(LStrip(s)))
HasPipe(s) == \E i \in 1..Len(s) : s[i] = Pipe
\* where the pipes are that separate cells: those not escaped by a backslash
Escaped(s) == LET RECURSIVE E(_, _) E(i, S) == IF i > Len(s) THEN S ELSE IF s[i] = Bsl THEN E(i + 2, S \cup {i + 1}) ELSE E(i + 1, S) IN E(1, {})
Seps(s) == {i \in 1..Len(s) : s[i] = Pipe /\ i \notin Escaped(s)}
RECURSIVE Cut(_, _, _)
Cut(s, P, from) == LET R == {i \in P : i >= from} IN
                   IF R = {} THEN <<SubSeq(s, from, Len(s))>>
                   ELSE LET i == CHOOSE x \in R : \A y \in R : x <= y IN <<SubSeq(s, from, i - 1)>> \o Cut(s, P, i + 1)
Raw(row) == \* the texts between separators; the outer ones are optional
  LET s == Strip(row) P == Seps(s)
      a == IF 1 \in P THEN 2 ELSE 1
      b == IF Len(s) \in P /\ Len(s) >= a THEN Len(s) - 1 ELSE Len(s) IN
  Cut(SubSeq(s, 1, b), {i \in P : i <= b}, a)
Cells(row) == LET r == Raw(row) IN [i \in 1..Len(r) |-> Strip(r[i])]
IsDelimCell(c) ==
  LET a == IF c # <<>> /\ c[1] = 58 THEN 2 ELSE 1
      b == IF c # <<>> /\ c[Len(c)] = 58 THEN Len(c) - 1 ELSE Len(c) IN
  a <= b /\ \A i \in a..b : c[i] = 45
Side(c) == <<c # <<>> /\ c[1] = 58, c # <<>> /\ c[Len(c)] = 58>>
IsDelim(row) == HasPipe(row) /\ \A i \in 1..Len(Cells(row)) : IsDelimCell(Cells(row)[i])
\* ---- fences
Fence(s) == LET t == LStrip(s)
                c == IF t = <<>> THEN 0 ELSE t[1]
                n == IF c \in {96, 126} THEN CHOOSE k \in 0..Len(t) : (\A i \in 1..k : t[i] = c) /\ (k = Len(t) \/ t[k + 1] # c) ELSE 0 IN
            [c |-> c, n |-> n, rest |-> Strip(SubSeq(t, n + 1, Len(t)))]
Opens(s) == LET f == Fence(s) IN f.n >= 3 /\ (f.c = 96 => \A i \in 1..Len(f.rest) : f.rest[i] # 96)
Closes(s, o) == LET f == Fence(s) IN f.n >= o.n /\ f.c = o.c /\ f.rest = <<>>
\* ---- the machine: what each line is ("text", "code", "head", "delim", "row")
NoFence == [c |-> 0, n |-> 0, rest |-> <<>>]
Kinds(doc) ==
  LET N == Len(doc)
      RECURSIVE K(_, _, _, _)
      K(i, fence, mode, acc) ==
        IF i > N THEN acc
        ELSE IF fence.n > 0 THEN K(i + 1, IF Closes(doc[i], fence) THEN NoFence ELSE fence, "text", Append(acc, "code"))
        ELSE IF Opens(doc[i]) THEN K(i + 1, Fence(doc[i]), "text", Append(acc, "code"))
        ELSE IF mode = "head" THEN K(i + 1, fence, "table", Append(acc, "delim"))
        ELSE IF mode = "table" /\ HasPipe(doc[i]) THEN K(i + 1, fence, "table", Append(acc, "row"))
        ELSE IF HasPipe(doc[i]) /\ i < N /\ ~Opens(doc[i + 1]) /\ IsDelim(doc[i + 1]) THEN K(i + 1, fence, "head", Append(acc, "head"))
        ELSE K(i + 1, fence, "text", Append(acc, "text")) IN
  K(1, NoFence, "text", <<>>)
\* the tables as intervals of lines
Tables(k) == {<<a, b>> \in (1..Len(k)) \X (1..Len(k)) : k[a] = "head" /\ b > a /\ (\A i \in (a + 2)..b : k[i] = "row") /\ (b = Len(k) \/ k[b + 1] # "row")}
\* ---- aligned documents
Cell(cs, j) == IF j <= Len(cs) THEN cs[j] ELSE <<>>
Cols(doc, t) == LET S == {Len(Cells(doc[i])) : i \in t[1]..t[2]} IN CHOOSE n \in S : \A m \in S : m <= n
Width(doc, t, j) == LET S == {3} \cup {Len(Cell(Cells(doc[i]), j)) : i \in {t[1]} \cup ((t[1] + 2)..t[2])} IN CHOOSE n \in S : \A m \in S : m <= n
Spaces(n) == [i \in 1..n |-> 32]
Dashes(n) == [i \in 1..n |-> 45]
\* padded text p of cell c, n wide
PaddedOk(p, c, n, side) ==
  /\ Len(p) = n
  /\ LET lead == CHOOSE k \in 0..n : (k = n \/ p[k + 1] # 32) /\ \A i \in 1..k : p[i] = 32
         l == IF c = <<>> THEN 0 ELSE lead
         r == n - Len(c) - l IN
     /\ r >= 0 /\ p = Spaces(l) \o c \o Spaces(r)
     /\ (c # <<>> => CASE side = <<TRUE, TRUE>> -> l - r \in {-1, 0, 1}
                       [] side = <<FALSE, TRUE>> -> r = 0
                       [] OTHER -> l = 0)
RECURSIVE JoinCells(_)
JoinCells(ps) == IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o <<32, Pipe, 32>> \o JoinCells(Tail(ps))
RowOk(out, indent, cs, w, sides) ==
  LET n == Len(w)
      \* where the column texts have to be
      Start(j) == LET RECURSIVE S(_) S(k) == IF k = 1 THEN Len(indent) + 3 ELSE S(k - 1) + w[k - 1] + 3 IN S(j)
      ps == [j \in 1..n |-> SubSeq(out, Start(j), Start(j) + w[j] - 1)] IN
  /\ Len(out) = Start(n) + w[n] - 1 + 2
  /\ out = indent \o <<Pipe, 32>> \o JoinCells(ps) \o <<32, Pipe>>
  /\ \A j \in 1..n : PaddedOk(ps[j], Cell(cs, j), w[j], sides[j])
DelimOk(out, indent, w, sides) ==
  out = indent \o <<Pipe, 32>> \o JoinCells([j \in 1..Len(w) |->
          (IF sides[j][1] THEN <<58>> ELSE <<>>) \o Dashes(w[j] - (IF sides[j][1] THEN 1 ELSE 0) - (IF sides[j][2] THEN 1 ELSE 0)) \o (IF sides[j][2] THEN <<58>> ELSE <<>>)]) \o <<32, Pipe>>
TableOk(doc, out, t) ==
  LET n == Cols(doc, t)
      ds == Cells(doc[t[1] + 1])
      sides == [j \in 1..n |-> Side(Cell(ds, j))]
      w == [j \in 1..n |-> Width(doc, t, j)]
      ind == Indent(doc[t[1]]) IN
  \A i \in t[1]..t[2] : IF i = t[1] + 1 THEN DelimOk(out[i], ind, w, sides) ELSE RowOk(out[i], ind, Cells(doc[i]), w, sides)
AlignedOk(doc, out) ==
  LET k == Kinds(doc) IN
  /\ Len(out) = Len(doc)
  /\ \A i \in 1..Len(doc) : k[i] \in {"text", "code"} => out[i] = doc[i]
  /\ \A t \in Tables(k) : TableOk(doc, out, t)
\* ---- one way to align
Pad(c, n, side) == LET g == n - Len(c) IN
  CASE side = <<TRUE, TRUE>> -> Spaces(g \div 2) \o c \o Spaces(g - (g \div 2)) [] side = <<FALSE, TRUE>> -> Spaces(g) \o c [] OTHER -> c \o Spaces(g)
Align(doc) ==
  LET k == Kinds(doc) T == Tables(k)
      One(i) == LET M == {t \in T : i \in t[1]..t[2]} IN
                IF M = {} THEN doc[i]
                ELSE LET t == CHOOSE x \in M : TRUE
                         n == Cols(doc, t) ds == Cells(doc[t[1] + 1]) cs == Cells(doc[i])
                         side(j) == Side(Cell(ds, j)) w(j) == Width(doc, t, j) IN
                     Indent(doc[t[1]]) \o <<Pipe, 32>> \o JoinCells([j \in 1..n |->
                        IF i = t[1] + 1 THEN (IF side(j)[1] THEN <<58>> ELSE <<>>) \o Dashes(w(j) - (IF side(j)[1] THEN 1 ELSE 0) - (IF side(j)[2] THEN 1 ELSE 0)) \o (IF side(j)[2] THEN <<58>> ELSE <<>>)
                        ELSE Pad(Cell(cs, j), w(j), side(j))]) \o <<32, Pipe>> IN
  [i \in 1..Len(doc) |-> One(i)]
=============================================================================
