------------------------------- MODULE GlobTool -------------------------------
(* The glob program: what of a tree it lists and how it sums it up.  A tree   *)
(* is a sequence of entries [path: below the root, kind: "d" directory, "D"   *)
(* link to a directory, "f" file, "l" other link, "p" other, size, up: the    *)
(* directory it is in, 0: the root]; o are the options.                       *)
EXTENDS Strings, TLC
G == INSTANCE Globs
SL == 47
DOT == 46
\* ---- what is listed
IsDir(e) == e.kind \in {"d", "D"}
Name(e) == LET i == LastOf(e.path, {SL}, Len(e.path)) IN From(e.path, i + 1)
Dotted(e) == Name(e)[1] = DOT
RECURSIVE Above(_, _)
Above(t, i) == IF t[i].up = 0 THEN {} ELSE {t[i].up} \cup Above(t, t[i].up)
Depth(t, i) == Cardinality(Above(t, i))
Allowed(t, i, o) == /\ o.dotdir \/ \A k \in Above(t, i) \cup (IF IsDir(t[i]) THEN {i} ELSE {}) : ~Dotted(t[k])
                    /\ o.dotfile \/ ~(t[i].kind = "f" /\ Dotted(t[i]))
Tokens(p) == G!Tokens(p, [ss |-> TRUE, ranges |-> TRUE])
Asked(p) == G!Elements(Tokens(p))
\* Es: what is asked for, as elements of patterns; no element at all: everything
Want(t, Es, o) == {i \in 1..Len(t) : (\E es \in Es : es = <<>> \/ G!Matches(es, t[i].path)) /\ Allowed(t, i, o)}
Listed(t, Es, o) == LET W == TLCEval(Want(t, Es, o)) IN IF o.recurse THEN W ELSE {i \in W : Above(t, i) \cap W = {}}
\* ---- numbers
RECURSIVE Decimal(_), Big(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Decimal(n \div 10) \o <<48 + (n % 10)>>
Big(n) == IF n < 1000 THEN Decimal(n) ELSE Big(n \div 1000) \o <<39, 48 + ((n % 1000) \div 100), 48 + ((n % 100) \div 10), 48 + (n % 10)>>
Blanks(n) == [i \in 1..(IF n > 0 THEN n ELSE 0) |-> 32]
Left(s, n) == s \o Blanks(n - Len(s))
Right(s, n) == Blanks(n - Len(s)) \o s
RECURSIVE Sum(_, _)
Sum(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(S \ {x}, f)
Largest(S) == IF S = {} THEN 0 ELSE Max(S)
\* ---- a line for each entry; not aligned: the same without padding
Files(t, L) == {i \in L : t[i].kind = "f"}
TypeOf(e) == CASE IsDir(e) -> 100 [] e.kind = "f" -> 102 [] e.kind = "l" -> 108 [] OTHER -> 112
LineOf(t, L, i, o) ==
  LET ws == IF o.fast THEN 1 ELSE Len(Big(Largest({t[k].size : k \in Files(t, L)})))
      wd == IF o.fast THEN 1 ELSE Len(Big(Largest({Depth(t, k) : k \in L}))) IN
  (IF o.size THEN Right(Big(t[i].size), ws) \o <<32>> ELSE <<>>) \o (IF o.type THEN <<TypeOf(t[i]), 32>> ELSE <<>>)
  \o (IF o.depth THEN Right(Big(Depth(t, i)), wd) \o <<32>> ELSE <<>>) \o t[i].path
Lines(t, L, o) == IF o.entries THEN {LineOf(t, L, i, o) : i \in L} ELSE {}
\* ---- the table: names with numbers, in the order of the names
Extension(e) == LET n == Name(e) i == LastOf(n, {DOT}, Len(n)) IN IF i < 0 THEN <<>> ELSE IF i = 0 THEN n ELSE From(n, i)
StrDirs == <<68, 105, 114, 115>>
StrFileSize == <<70, 105, 108, 101, 83, 105, 122, 101>>
StrFiles == <<70, 105, 108, 101, 115>>
StrFileExt == <<70, 105, 108, 101, 69, 120, 116>>
StrLinks == <<76, 105, 110, 107, 115>>
StrMaxDepth == <<77, 97, 120, 68, 101, 112, 116, 104>>
StrOther == <<79, 116, 104, 101, 114>>
StrTotal == <<84, 111, 116, 97, 108>>
Table(t, L, ext) ==
  LET F == Files(t, L)
      sizes == [i \in 1..Len(t) |-> t[i].size]
      of(x) == {i \in F : Extension(t[i]) = x}
      par(x) == <<40>> \o x \o <<41>> IN
  {<<StrDirs, Cardinality({i \in L : IsDir(t[i])})>>, <<StrFiles, Cardinality(F)>>, <<StrFileSize, Sum(F, sizes)>>, <<StrLinks, Cardinality({i \in L : t[i].kind = "l"})>>,
   <<StrMaxDepth, Largest({Depth(t, i) : i \in L})>>, <<StrOther, Cardinality({i \in L : t[i].kind = "p"})>>, <<StrTotal, Cardinality(L)>>}
  \cup (IF ext THEN UNION {{<<StrFileExt \o par(x), Cardinality(of(x))>>, <<StrFileSize \o par(x), Sum(of(x), sizes)>>} : x \in {Extension(t[i]) : i \in F}} ELSE {})
Summary(t, L, ext) ==
  LET T == {<<r[1] \o <<58>>, Big(r[2])>> : r \in Table(t, L, ext)}
      n == Max({Len(r[1]) : r \in T})
      v == Max({Len(r[2]) : r \in T})
      s == SetToSortSeq(T, LAMBDA a, b : CmpStr(a[1], b[1]) < 0) IN
  [k \in 1..Len(s) |-> Left(s[k][1], n) \o <<32>> \o Right(s[k][2], v)]
\* ---- the command line: flags as [n: name, b: text] in order, the last of a name counts
Flagged(fs, n) == {i \in 1..Len(fs) : fs[i].n = n}
Switch(fs, n, d) == LET S == Flagged(fs, n) IN IF S = {} THEN d ELSE fs[Max(S)].b # <<48>>
RECURSIVE Value(_, _)
Value(s, x) == IF s = <<>> THEN x ELSE Value(Tail(s), IF Head(s) \in 48..57 THEN 10 * x + (Head(s) - 48) ELSE x)
Options(fs) == LET S == Flagged(fs, "sum_every") IN
  [dotdir |-> Switch(fs, "dotdir", TRUE), dotfile |-> Switch(fs, "dotfile", TRUE), entries |-> Switch(fs, "entries", TRUE), fast |-> Switch(fs, "fast", FALSE),
   recurse |-> Switch(fs, "recurse_match", TRUE), size |-> Switch(fs, "size", FALSE), sum |-> Switch(fs, "sum", FALSE), ext |-> Switch(fs, "sum_extensions", FALSE),
   type |-> Switch(fs, "type", FALSE), depth |-> Switch(fs, "depth", FALSE), every |-> IF S = {} THEN 0 ELSE Value(fs[Max(S)].b, 0)]
\* what the arguments ask for: [ok, root, Es]; globs: patterns that mean what a regular expression means, <<>>: it is none
Request(args, re2, globs) ==
  IF Len(args) \notin {1, 2} THEN [ok |-> FALSE, root |-> <<>>, Es |-> {}]
  ELSE IF Len(args) = 2 /\ re2 THEN [ok |-> globs # <<>>, root |-> args[1], Es |-> {Asked(globs[i]) : i \in 1..Len(globs)}]
  ELSE LET T == Tokens(args[Len(args)]) IN
       IF G!IsBad(T) THEN [ok |-> FALSE, root |-> <<>>, Es |-> {}]
       ELSE IF Len(args) = 2 THEN [ok |-> TRUE, root |-> args[1], Es |-> {G!Elements(T)}]
       ELSE LET x == G!Split(T) IN [ok |-> TRUE, root |-> x.root, Es |-> {G!Elements(x.rest)}]
\* ---- a run that can go: its lines.  Entries come in any order; the sums in between are seven
\* lines after an empty one, after every so many entries, and count those seen so far: if these were
\* shown, just those; if not, as many
Squeeze(s) == SelectSeq(s, LAMBDA c : c # 32)
Names7 == <<StrDirs, StrFileSize, StrFiles, StrLinks, StrMaxDepth, StrOther, StrTotal>>
SumOk(t, L, o, seen, n, rows) ==
  IF o.fast /\ o.entries THEN LET S == {i \in L : Squeeze(LineOf(t, L, i, o)) \in seen} IN rows = Summary(t, S, FALSE)
  ELSE LET v == [i \in 1..7 |-> Value(rows[i], 0)]
           all == Table(t, L, FALSE) IN
       /\ \A i \in 1..7 : StartsWith(rows[i], Names7[i] \o <<58>>) /\ Len(rows[i]) = Len(rows[1])
       /\ v[7] = n /\ v[1] + v[3] + v[4] + v[6] = n
       /\ \A r \in all : \E i \in 1..7 : r[1] = Names7[i] /\ v[i] <= r[2] /\ (n = Cardinality(L) => v[i] = r[2])
\* lines without the sums in between, <<ok, rest>>; k: the next sum, out: lines so far
RECURSIVE Between(_, _, _, _, _, _)
Between(t, L, o, xs, k, out) ==
  IF o.every = 0 \/ k > Cardinality(L) \div (IF o.every = 0 THEN 1 ELSE o.every) THEN <<TRUE, out \o xs>>
  ELSE LET shown == IF o.fast /\ o.entries THEN o.every ELSE 0 IN
       IF Len(xs) < shown + 8 THEN <<FALSE, out>>
       ELSE LET now == out \o SubSeq(xs, 1, shown) IN
            IF xs[shown + 1] # <<>> \/ ~SumOk(t, L, o, {Squeeze(now[i]) : i \in 1..Len(now)}, k * o.every, SubSeq(xs, shown + 2, shown + 8)) THEN <<FALSE, out>>
            ELSE Between(t, L, o, From(xs, shown + 8), k + 1, now)
OutputOk(t, Es, o, xs) ==
  LET L == TLCEval(Listed(t, Es, o))
      b == Between(t, L, o, xs, 1, <<>>)
      ys == b[2]
      sum == o.sum \/ o.ext \/ o.every > 0
      end == IF sum THEN <<<<>>>> \o Summary(t, L, o.ext) ELSE <<>>
      want == Lines(t, L, o)
      n == Len(ys) - Len(end)
      got == IF n >= 0 THEN SubSeq(ys, 1, n) ELSE <<>> IN
  /\ b[1] /\ n = Cardinality(want) /\ From(ys, Min2(Max2(n, 0), Len(ys))) = end
  /\ IF o.fast THEN {Squeeze(got[i]) : i \in 1..n} = {Squeeze(x) : x \in want} ELSE {got[i] : i \in 1..n} = want
=============================================================================
