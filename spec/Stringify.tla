------------------------------ MODULE Stringify ------------------------------
(* Printing of structs (mbo/types/stringify.h): values, formats, and the text *)
(* a value has in a format.  Texts are byte sequences.                        *)
(*                                                                            *)
(* A value is [t, b, c, n, ..]:                                               *)
(*  "num" b its text; "flt" q quarters, or b its text and x its exact text,   *)
(*  which is empty if it is not finite; "chr" b one byte, sg 256 if signed;   *)
(*  "str" b; "null" a pointer (b = <<>>) or the type of     *)
(*  nullptr; "nopt"; "ptr", "smart", "opt" c one value; "ref" c one value     *)
(*  (reference like, transparent); "noref"; "seq" c; "map" c values, n keys;  *)
(*  "pair" c two values; "var" c one value; "acc" c one value; "dis"; "oth" b *)
(*  own text; "struct" c fields, n the field names known, nn: must print no   *)
(*  names, ty: 0 or the number of its own field control.                      *)
(* A format holds seven groups: fmt fc kc ko vc vo sp.  A partial format says *)
(* of each group whether it is set.                                           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

\* ------------------------------------------------------------------ formats
None == -1
Fmt == [set |-> TRUE, mp |-> <<>>, ms |-> <<>>, ind |-> <<>>, kv |-> <<58, 32>>, sep |-> <<44, 32>>,
        pp |-> <<42, 123>>, ps |-> <<125>>, mpp |-> <<123>>, mps |-> <<125>>, opp |-> <<123>>, ops |-> <<125>>,
        tp |-> <<123>>, ts |-> <<125>>, cp |-> <<123>>, cs |-> <<125>>, cd |-> <<39>>, sd |-> <<34>>]
Disabled == <<123, 47, 42, 77, 98, 111, 84, 121, 112, 101, 115, 83, 116, 114, 105, 110, 103, 105, 102, 121, 68, 105, 115, 97, 98, 108, 101, 42, 47, 125>>
Fc == [set |-> TRUE, sup |-> FALSE, supn |-> FALSE, supo |-> FALSE, supd |-> FALSE, dis |-> Disabled]
Kc == [set |-> TRUE, mode |-> 1, kp |-> <<46>>, ks |-> <<>>]
Ko == [set |-> TRUE, kind |-> 0, name |-> <<>>]
Nullptr == <<110, 117, 108, 108, 112, 116, 114>>
Vc == [set |-> TRUE, direct |-> TRUE, esc |-> 1, nt |-> <<115, 116, 100, 58, 58>> \o Nullptr \o <<95, 116>>, nv |-> <<60>> \o Nullptr \o <<62>>,
       no |-> <<115, 116, 100, 58, 58, 110, 117, 108, 108, 111, 112, 116>>, max |-> None, smax |-> None, cut |-> <<46, 46, 46>>, exact |-> FALSE]
Vo == [set |-> TRUE, rs |-> <<>>, ro |-> <<>>]
First == <<102, 105, 114, 115, 116>>
Second == <<115, 101, 99, 111, 110, 100>>
Sp == [set |-> TRUE, keyed |-> 0, pk |-> TRUE, k1 |-> First, k2 |-> Second]
Default == [fmt |-> Fmt, fc |-> Fc, kc |-> Kc, ko |-> Ko, vc |-> Vc, vo |-> Vo, sp |-> Sp]
Off == [Default EXCEPT !.fc.sup = TRUE]
Cpp == [Default EXCEPT !.fmt.kv = <<32, 61, 32>>, !.fmt.pp = <<>>, !.fmt.ps = <<>>, !.vc.nt = Nullptr, !.vc.nv = Nullptr]
CppPretty == [Cpp EXCEPT !.fmt.ms = <<10>>, !.fmt.ind = <<32, 32>>, !.fmt.sep = <<44>>]
Nil == <<110, 117, 108, 108>>
Json == [fmt |-> [Fmt EXCEPT !.ms = <<10>>, !.kv = <<58>>, !.sep = <<44>>, !.pp = <<>>, !.ps = <<>>, !.mpp = <<>>, !.mps = <<>>, !.opp = <<>>, !.ops = <<>>,
                             !.cp = <<91>>, !.cs = <<93>>, !.cd = <<34>>],
         fc |-> [Fc EXCEPT !.supn = TRUE, !.supo = TRUE, !.supd = TRUE, !.dis = Nil],
         kc |-> [Kc EXCEPT !.mode = 2, !.kp = <<34>>, !.ks = <<34>>], ko |-> Ko,
         vc |-> [Vc EXCEPT !.esc = 3, !.nt = Nil, !.nv = Nil, !.no = Nil, !.exact = TRUE], vo |-> Vo, sp |-> [Sp EXCEPT !.keyed = 1]]
JsonLine == [Json EXCEPT !.fmt.kv = <<58, 32>>, !.fmt.sep = <<44, 32>>]
JsonPretty == [Json EXCEPT !.fmt.kv = <<58, 32>>, !.fmt.ind = <<32, 32>>, !.sp.keyed = 2]
Mode(m) == CASE m = "default" -> Default [] m = "disabled" -> Off [] m = "cpp" -> Cpp [] m = "cpppretty" -> CppPretty
             [] m = "json" -> Json [] m = "jsonline" -> JsonLine [] m = "jsonpretty" -> JsonPretty
Fill(p, base) == [g \in DOMAIN base |-> IF p[g].set THEN p[g] ELSE base[g]]

\* -------------------------------------------------------------------- texts
RECURSIVE Nat10(_)
Nat10(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Nat10(n \div 10), 48 + (n % 10))
Oct(c) == <<92, 48 + (c \div 64), 48 + ((c \div 8) % 8), 48 + (c % 8)>>
HexD(d) == IF d < 10 THEN 48 + d ELSE 87 + d
HexE(c) == <<92, 120, HexD(c \div 16), HexD(c % 16)>>
JsonE(c) == CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c = 8 -> <<92, 98>> [] c = 12 -> <<92, 102>> [] c = 10 -> <<92, 110>>
              [] c = 13 -> <<92, 114>> [] c = 9 -> <<92, 116>> [] c < 32 /\ c \notin {8, 9, 10, 12, 13} -> <<92, 117, 48, 48, HexD(c \div 16), HexD(c % 16)>> [] OTHER -> <<c>>
CE(c, mode) == CASE c = 10 -> <<92, 110>> [] c = 13 -> <<92, 114>> [] c = 9 -> <<92, 116>> [] c \in {34, 39, 92} -> <<92, c>>
                 [] (c < 32 \/ c >= 127) /\ c \notin {9, 10, 13} -> (IF mode = 1 THEN Oct(c) ELSE HexE(c)) [] OTHER -> <<c>>
\* a hex digit that follows a hex escape would be read as part of it
HexDigits == 48..57 \cup 65..70 \cup 97..102
HexEsc(s) == FoldLeft(LAMBDA a, c : LET h == (c \notin {9, 10, 13} /\ (c < 32 \/ c >= 127)) \/ (a.h /\ c \in HexDigits) IN
                                    [t |-> a.t \o (IF h THEN HexE(c) ELSE CE(c, 2)), h |-> h], [t |-> <<>>, h |-> FALSE], s).t
Esc(s, mode) == CASE mode = 0 -> s [] mode = 2 -> HexEsc(s)
                  [] OTHER -> FlattenSeq([i \in 1..Len(s) |-> IF mode = 3 THEN JsonE(s[i]) ELSE CE(s[i], 1)])
\* a text as value: replaced, or cut (before it is escaped) and escaped
Str(o, s) == IF o.vo.rs # <<>> THEN o.vo.rs
             ELSE IF o.vc.smax # None /\ Len(s) > o.vc.smax THEN Esc(SubSeq(s, 1, o.vc.smax), o.vc.esc) \o o.vc.cut
             ELSE Esc(s, o.vc.esc)
Quarters(q) == LET a == IF q < 0 THEN -q ELSE q
                   f == CASE a % 4 = 0 -> <<>> [] a % 4 = 1 -> <<46, 50, 53>> [] a % 4 = 2 -> <<46, 53>> [] OTHER -> <<46, 55, 53>>
               IN (IF q < 0 THEN <<45>> ELSE <<>>) \o Nat10(a \div 4) \o f
Repl(o, s) == IF o.vo.ro # <<>> THEN o.vo.ro ELSE s

\* --------------------------------------------------------------------- keys
\* the function given as name answers with the first letter of the name, or with # if it is not known
NameOf(ko, name) == CASE ko.kind = 1 -> ko.name [] ko.kind = 2 -> (IF name = <<>> THEN <<35>> ELSE <<name[1]>>) [] OTHER -> <<>>
KeyText(o, text) == o.kc.kp \o (IF o.vc.esc = 3 THEN Esc(text, 3) ELSE text) \o o.kc.ks \o o.fmt.kv
\* idx counts from 0
FieldKey(o, name, idx) == LET own == NameOf(o.ko, name)
                              use == IF own # <<>> THEN own ELSE name
                          IN IF o.kc.mode = 0 THEN <<>> ELSE IF use # <<>> THEN KeyText(o, use)
                             ELSE IF o.kc.mode = 2 THEN o.kc.kp \o Nat10(idx) \o o.kc.ks \o o.fmt.kv ELSE <<>>
DataKey(o, key) == IF o.kc.mode = 0 \/ (key = <<>> /\ o.kc.mode # 2) THEN <<>> ELSE KeyText(o, key)

\* ------------------------------------------------------------------- values
Break(o, lv) == IF o.fmt.ind = <<>> THEN <<>> ELSE <<10>> \o lv
Shown(o, v) == ~o.fc.sup /\ (v.t = "null" => ~o.fc.supn) /\ (v.t = "nopt" => ~o.fc.supo) /\ (v.t = "dis" => ~o.fc.supd)
AllNames(o, names) == names \/ o.kc.mode = 2
\* items: the printed parts of a structure or container under format o; lv: the indentation it stands in
Body(o, sep, lv, items) == FlattenSeq([i \in 1..Len(items) |-> (IF i = 1 THEN <<>> ELSE sep) \o Break(o, lv \o o.fmt.ind) \o items[i]]) \o Break(o, lv)
SeqLess(a, b) == LET n == CHOOSE k \in 0..Len(a) : (k = Len(a) \/ k >= Len(b) \/ a[k + 1] # b[k + 1]) /\ \A j \in 1..k : a[j] = b[j] IN
                 IF n = Len(b) THEN FALSE ELSE IF n = Len(a) THEN TRUE ELSE a[n + 1] < b[n + 1]
Limit(o, s) == IF o.vc.max # None /\ Len(s) > o.vc.max THEN SubSeq(s, 1, o.vc.max) ELSE s
\* the elements in the order of their keys, those with the same key as they were
InOrder(n) == LET Before(i, j) == SeqLess(n[i], n[j]) \/ (n[i] = n[j] /\ i < j) IN
              SetToSortSeq(1..Len(n), Before)
Pad(n, i) == IF i <= Len(n) THEN n[i] ELSE <<>>
\* x: what does not change: x.d the format selected, x.own the field controls of structs (a sequence of sequences
\* of [o, i] partial formats); o, i: the format of the value and of what it holds; names: whether names are given
RECURSIVE Put(_, _, _, _, _, _)
StructText(v, o, i, x, lv) ==
  LET names == AllNames(o, ~v.nn)
      \* what a control leaves open is as the format of what the structure holds, or as that of the structure (from)
      Ctl(k) == IF v.ty = 0 THEN [o |-> x.d, i |-> x.d]
                ELSE LET p == x.own[v.ty][k]
                         base == IF p.from THEN o ELSE i IN [o |-> Fill(p.o, base), i |-> Fill(p.i, base)]
      \* a name given to the field is not the name of what its value holds
      Plain(f, g) == IF f.o.ko.kind = 0 /\ f.i.ko.kind = 0 THEN g ELSE [g EXCEPT !.ko = x.d.ko]
      Field(k) == LET f == Ctl(k) IN
                  IF ~Shown(f.o, v.c[k]) THEN <<>>
                  ELSE <<(IF names THEN FieldKey(f.o, IF v.nn THEN <<>> ELSE Pad(v.n, k), k - 1) ELSE <<>>) \o Put(v.c[k], Plain(f, f.o), Plain(f, f.i), x, lv \o o.fmt.ind, names)>>
      items == FlattenSeq([k \in 1..Len(v.c) |-> Field(k)])
  IN o.fmt.tp \o Body(o, o.fmt.sep, lv, items) \o o.fmt.ts
PairText(v, o, i, x, lv, nm) ==
  LET names == AllNames(o, nm)
      n == IF o.sp.pk THEN <<o.sp.k1, o.sp.k2>> ELSE <<First, Second>>
      Field(k) == IF ~Shown(x.d, v.c[k]) THEN <<>>
                  ELSE <<(IF names THEN FieldKey(x.d, n[k], k - 1) ELSE <<>>) \o Put(v.c[k], x.d, x.d, x, lv \o o.fmt.ind, names)>>
  IN o.fmt.tp \o Body(o, i.fmt.sep, lv, Field(1) \o Field(2)) \o o.fmt.ts
SeqText(c, o, i, x, lv, nm) ==
  LET s == Limit(o, c) IN o.fmt.cp \o Body(o, o.fmt.sep, lv, [k \in 1..Len(s) |-> Put(s[k], i, i, x, lv \o o.fmt.ind, nm)]) \o o.fmt.cs
MapText(v, o, i, x, lv, nm) ==
  IF o.sp.keyed = 0 THEN SeqText([k \in 1..Len(v.c) |-> [t |-> "pair", c |-> <<[t |-> "str", b |-> v.n[k]], v.c[k]>>]], o, i, x, lv, nm)
  ELSE LET names == AllNames(o, nm)
           n == Limit(o, v.n)
           ord == IF o.sp.keyed = 2 THEN InOrder(n) ELSE [k \in 1..Len(n) |-> k]
       IN o.fmt.tp \o Body(o, o.fmt.sep, lv, [k \in 1..Len(n) |-> (IF names THEN DataKey(o, v.n[ord[k]]) ELSE <<>>) \o Put(v.c[ord[k]], i, i, x, lv \o o.fmt.ind, names)]) \o o.fmt.ts
Put(v, o, i, x, lv, nm) ==
  CASE v.t = "num" -> Repl(o, v.b)
    [] v.t = "flt" -> Repl(o, IF v.b = <<>> THEN Quarters(v.q) ELSE IF ~o.vc.exact THEN v.b ELSE IF v.x = <<>> THEN o.vc.no ELSE v.x)
    [] v.t = "chr" -> IF o.fmt.cd = <<>> THEN Repl(o, LET n == IF v.b[1] < 128 THEN v.b[1] ELSE v.b[1] - v.sg IN IF n < 0 THEN <<45>> \o Nat10(-n) ELSE Nat10(n))
                      ELSE IF o.vc.esc = 0 /\ v.b = <<39>> THEN o.fmt.cd \o Str(o, <<92, 39>>) \o o.fmt.cd
                      ELSE o.fmt.cd \o Str(o, v.b) \o o.fmt.cd
    [] v.t = "str" -> o.fmt.sd \o Str(o, v.b) \o o.fmt.sd
    [] v.t = "null" -> IF v.b = <<>> THEN o.vc.nv ELSE o.vc.nt
    [] v.t = "nopt" -> o.vc.no
    [] v.t = "noref" -> o.vc.no
    [] v.t = "ptr" -> o.fmt.pp \o Put(v.c[1], i, i, x, lv, nm) \o o.fmt.ps
    [] v.t = "smart" -> o.fmt.mpp \o Put(v.c[1], i, i, x, lv, nm) \o o.fmt.mps
    [] v.t = "opt" -> o.fmt.opp \o Put(v.c[1], i, i, x, lv, nm) \o o.fmt.ops
    [] v.t = "ref" -> Put(v.c[1], o, i, x, lv, nm)
    [] v.t = "seq" -> SeqText(v.c, o, i, x, lv, nm)
    [] v.t = "map" -> MapText(v, o, i, x, lv, nm)
    [] v.t = "pair" -> PairText(v, o, i, x, lv, nm)
    [] v.t = "var" -> Put(v.c[1], o, i, x, lv, v.c[1].t = "map")
    [] v.t = "acc" -> Put(v.c[1], o, i, x, lv, FALSE)
    [] v.t = "dis" -> o.fc.dis
    [] v.t = "oth" -> IF o.vc.direct THEN Repl(o, v.b) ELSE Str(o, v.b)
    [] v.t = "struct" -> StructText(v, o, i, x, lv)
\* the whole text; root: prefix, suffix and indentation of the document
Text(v, d, own, root) ==
  LET x == [d |-> d, own |-> own]
      body == IF v.t = "dis" THEN (IF d.fc.supd THEN <<>> ELSE d.fc.dis) ELSE Put(v, d, d, x, root.i, TRUE)
  IN root.p \o d.fmt.mp \o body \o d.fmt.ms \o root.s

\* -------------------------------------------------------------- comparison
\* Values that compare: numbers by rank, texts by their bytes, then by what they hold, in order. -2: not ordered.
PairsOf(m) == [k \in 1..Len(m.c) |-> [t |-> "pair", c |-> <<[t |-> "str", b |-> m.n[k]], m.c[k]>>]]
RECURSIVE Cmp(_, _), CmpSeq(_, _, _)
CmpInt(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
CmpBytes(a, b) == IF a = b THEN 0 ELSE IF SeqLess(a, b) THEN -1 ELSE 1
CmpSeq(a, b, k) == IF k > Len(a) \/ k > Len(b) THEN CmpInt(Len(a), Len(b))
                   ELSE LET r == Cmp(a[k], b[k]) IN IF r # 0 THEN r ELSE CmpSeq(a, b, k + 1)
Cmp(a, b) ==
  CASE a.t = "num" -> CmpInt(a.q, b.q)
    [] a.t = "flt" -> IF a.nan \/ b.nan THEN -2 ELSE CmpInt(a.q, b.q)
    [] a.t = "chr" -> CmpInt(IF a.b[1] < 128 THEN a.b[1] ELSE a.b[1] - a.sg, IF b.b[1] < 128 THEN b.b[1] ELSE b.b[1] - b.sg)
    [] a.t = "str" -> CmpBytes(a.b, b.b)
    [] a.t \in {"nopt", "opt"} -> IF a.t # b.t THEN (IF a.t = "nopt" THEN -1 ELSE 1) ELSE IF a.t = "nopt" THEN 0 ELSE Cmp(a.c[1], b.c[1])
    [] a.t = "map" -> CmpSeq(PairsOf(a), PairsOf(b), 1)
    [] a.t = "var" -> IF a.q # b.q THEN CmpInt(a.q, b.q) ELSE Cmp(a.c[1], b.c[1])
    [] OTHER -> CmpSeq(a.c, b.c, 1)
=============================================================================
