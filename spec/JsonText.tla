----------------------------- MODULE JsonText -----------------------------
(* JSON texts as byte sequences: tokens, the value a text denotes, decimal  *)
(* numbers and the doubles they denote, and the layouts of the modes.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Ch(c) == CASE c = "{" -> 123 [] c = "}" -> 125 [] c = "[" -> 91 [] c = "]" -> 93 [] c = ":" -> 58 [] c = "," -> 44 [] c = "Q" -> 34 [] c = "B" -> 92
Space == {32, 9, 10, 13}
Digits == 48..57
Hex == Digits \cup (65..70) \cup (97..102)
HexVal(b) == IF b \in Digits THEN b - 48 ELSE IF b >= 97 THEN b - 87 ELSE b - 55

\* ---------------------------------------------------------------- strings
Utf8(u) == IF u < 128 THEN <<u>>
           ELSE IF u < 2048 THEN <<192 + (u \div 64), 128 + (u % 64)>>
           ELSE IF u < 65536 THEN <<224 + (u \div 4096), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
           ELSE <<240 + (u \div 262144), 128 + ((u \div 4096) % 64), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
U4(t, i) == IF i + 3 <= Len(t) /\ \A j \in i..(i + 3) : t[j] \in Hex
            THEN (HexVal(t[i]) * 4096) + (HexVal(t[i + 1]) * 256) + (HexVal(t[i + 2]) * 16) + HexVal(t[i + 3]) ELSE -1
Simple(b) == CASE b = 34 -> 34 [] b = 92 -> 92 [] b = 47 -> 47 [] b = 98 -> 8 [] b = 102 -> 12 [] b = 110 -> 10 [] b = 114 -> 13 [] b = 116 -> 9 [] OTHER -> -1
\* i: behind the opening quote.  [end: behind the closing quote, or 0; v: the bytes denoted]
RECURSIVE StrAt(_, _, _)
StrAt(t, i, acc) ==
  IF i > Len(t) THEN [end |-> 0, v |-> <<>>]
  ELSE IF t[i] = 34 THEN [end |-> i + 1, v |-> acc]
  ELSE IF t[i] < 32 THEN [end |-> 0, v |-> <<>>]
  ELSE IF t[i] # 92 THEN StrAt(t, i + 1, Append(acc, t[i]))
  ELSE IF i + 1 > Len(t) THEN [end |-> 0, v |-> <<>>]
  ELSE IF t[i + 1] = 117 THEN
    LET u == U4(t, i + 2) IN
    IF u < 0 THEN [end |-> 0, v |-> <<>>]
    ELSE IF u < 55296 \/ u > 57343 THEN StrAt(t, i + 6, acc \o Utf8(u))
    ELSE LET w == IF u < 56320 /\ i + 11 <= Len(t) THEN (IF t[i + 6] = 92 /\ t[i + 7] = 117 THEN U4(t, i + 8) ELSE -1) ELSE -1 IN
         IF w < 56320 \/ w > 57343 THEN [end |-> 0, v |-> <<>>]
         ELSE StrAt(t, i + 12, acc \o Utf8(65536 + ((u - 55296) * 1024) + (w - 56320)))
  ELSE IF Simple(t[i + 1]) >= 0 THEN StrAt(t, i + 2, Append(acc, Simple(t[i + 1])))
  ELSE [end |-> 0, v |-> <<>>]

\* ---------------------------------------------------------------- numbers
RECURSIVE DigitsEnd(_, _)
DigitsEnd(t, i) == IF i <= Len(t) THEN (IF t[i] \in Digits THEN DigitsEnd(t, i + 1) ELSE i) ELSE i
At(t, i) == IF i <= Len(t) THEN t[i] ELSE 0
\* behind a number that starts at i, or 0
NumEnd(t, i) ==
  LET a == IF At(t, i) = 45 THEN i + 1 ELSE i
      b == IF At(t, a) = 48 THEN a + 1 ELSE DigitsEnd(t, a)
      c == IF At(t, b) = 46 THEN DigitsEnd(t, b + 1) ELSE b
      d == IF At(t, c) \in {69, 101} THEN (IF At(t, c + 1) \in {43, 45} THEN c + 2 ELSE c + 1) ELSE c
      e == IF d > c THEN DigitsEnd(t, d) ELSE c
  IN IF b = a \/ (At(t, b) = 46 /\ c = b + 1) \/ (d > c /\ e = d) THEN 0 ELSE e
RECURSIVE IntOf(_, _)
IntOf(s, acc) == IF s = <<>> THEN acc ELSE IF acc > 100000000 THEN acc ELSE IntOf(Tail(s), (acc * 10) + (s[1] - 48))
RECURSIVE NoLeading(_), NoTrailing(_)
NoLeading(s) == IF s = <<>> THEN s ELSE IF s[1] = 48 THEN NoLeading(Tail(s)) ELSE s
NoTrailing(s) == IF s = <<>> THEN s ELSE IF s[Len(s)] = 48 THEN NoTrailing(SubSeq(s, 1, Len(s) - 1)) ELSE s
\* the decimal of a number text: sign, digits (no zeros at either end), exponent of ten of the last digit
Decimal(s) ==
  LET neg == s[1] = 45
      a == IF neg THEN 2 ELSE 1
      b == DigitsEnd(s, a)
      c == IF At(s, b) = 46 THEN DigitsEnd(s, b + 1) ELSE b
      frac == IF c > b THEN SubSeq(s, b + 1, c - 1) ELSE <<>>
      eneg == At(s, c + 1) = 45
      ed == IF c > Len(s) THEN <<>> ELSE SubSeq(s, IF At(s, c + 1) \in {43, 45} THEN c + 2 ELSE c + 1, Len(s))
      x == IF eneg THEN - IntOf(ed, 0) ELSE IntOf(ed, 0)
      all == NoLeading(SubSeq(s, a, b - 1) \o frac)
      cut == NoTrailing(all)
  IN IF cut = <<>> THEN [neg |-> neg, d |-> <<>>, x |-> 0] ELSE [neg |-> neg, d |-> cut, x |-> (x - Len(frac)) + (Len(all) - Len(cut))]

\* Natural numbers as limbs of four decimal digits, least first.
RECURSIVE Carry(_, _), Times(_, _, _, _), Pow(_, _, _)
Carry(c, acc) == IF c = 0 THEN acc ELSE Carry(c \div 10000, Append(acc, c % 10000))
Times(n, m, c, acc) == IF n = <<>> THEN Carry(c, acc) ELSE LET v == (n[1] * m) + c IN Times(Tail(n), m, v \div 10000, Append(acc, v % 10000))
Mul(n, m) == Times(n, m, 0, <<>>)
\* n * b^e, with b^4 = b4 and so on in steps that stay small
Pow(n, b, e) == IF e = 0 THEN n ELSE IF b = 2 /\ e >= 12 THEN Pow(Mul(n, 4096), b, e - 12) ELSE IF b = 10 /\ e >= 4 THEN Pow(<<0>> \o n, b, e - 4) ELSE Pow(Mul(n, b), b, e - 1)
RECURSIVE Plus(_, _, _, _), OfDigits(_, _), Trim(_), CmpNat(_, _, _)
Plus(a, b, c, acc) == IF a = <<>> /\ b = <<>> THEN Carry(c, acc)
                      ELSE LET v == (IF a = <<>> THEN 0 ELSE a[1]) + (IF b = <<>> THEN 0 ELSE b[1]) + c IN
                           Plus(IF a = <<>> THEN a ELSE Tail(a), IF b = <<>> THEN b ELSE Tail(b), v \div 10000, Append(acc, v % 10000))
OfDigits(s, acc) == IF s = <<>> THEN acc ELSE OfDigits(Tail(s), Plus(Mul(acc, 10), <<s[1] - 48>>, 0, <<>>))
Trim(n) == IF n = <<>> THEN n ELSE IF n[Len(n)] = 0 THEN Trim(SubSeq(n, 1, Len(n) - 1)) ELSE n
CmpNat(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE CmpNat(a, b, i - 1)
CmpN(a, b) == LET x == Trim(a)
                  y == Trim(b) IN IF Len(x) # Len(y) THEN (IF Len(x) < Len(y) THEN -1 ELSE 1) ELSE CmpNat(x, y, Len(x))
\* A double by its parts: f.neg, exponent field f.e, fraction f.hi (26 bits), f.lo (26 bits).
Finite(f) == f.e # 2047
IsZero(f) == f.e = 0 /\ f.hi = 0 /\ f.lo = 0
Small(n) == Carry(n, <<>>)
Mantissa(f) == Plus(Pow(Small((IF f.e = 0 THEN 0 ELSE 67108864) + f.hi), 2, 26), Small(f.lo), 0, <<>>)
Exponent(f) == (IF f.e = 0 THEN 1 ELSE f.e) - 1075
\* Does the decimal denote the double: is the double the one nearest to it?
\* With mantissa m and exponent e: (4m-2)*2^(e-2) <= decimal <= (4m+2)*2^(e-2), where the lower neighbour
\* is half as far when m is a power of two (not of the smallest exponent); ties go to the even mantissa.
Denotes(dec, f) ==
  IF IsZero(f) THEN dec.d = <<>>
  ELSE IF dec.d = <<>> \/ dec.neg # f.neg THEN FALSE
  ELSE IF dec.x > 400 \/ dec.x < -1200 \/ Len(dec.d) > 800 THEN FALSE
  ELSE LET m4 == Mul(Mantissa(f), 4)
           e == Exponent(f) - 2
           even == f.lo % 2 = 0
           edge == f.hi = 0 /\ f.lo = 0 /\ f.e > 1
           two == IF e < 0 THEN -e ELSE 0
           ten == IF dec.x < 0 THEN -dec.x ELSE 0
           D == Pow(Pow(OfDigits(dec.d, <<>>), 10, IF dec.x > 0 THEN dec.x ELSE 0), 2, two)
           Side(n) == Pow(Pow(n, 2, IF e > 0 THEN e ELSE 0), 10, ten)
           hi == CmpN(D, Side(Plus(m4, <<2>>, 0, <<>>)))
           \* D + (1 or 2) units compared with m4, as there is no subtraction
           lo == CmpN(Plus(D, Side(IF edge THEN <<1>> ELSE <<2>>), 0, <<>>), Side(m4))
       IN (hi < 0 \/ (hi = 0 /\ even)) /\ (lo > 0 \/ (lo = 0 /\ even))

\* ---------------------------------------------------------------- tokens
Bad == <<[t |-> "bad", raw |-> <<>>, v |-> <<>>]>>
Word(t, i, w) == i + Len(w) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(w) - 1) = w
True == <<116, 114, 117, 101>>
False == <<102, 97, 108, 115, 101>>
Nil == <<110, 117, 108, 108>>
Punct == {123, 125, 91, 93, 58, 44}
PunctName(b) == CASE b = 123 -> "{" [] b = 125 -> "}" [] b = 91 -> "[" [] b = 93 -> "]" [] b = 58 -> ":" [] OTHER -> ","
RECURSIVE Lex(_, _, _)
Lex(t, i, acc) ==
  IF i > Len(t) THEN acc
  ELSE IF t[i] \in Space THEN Lex(t, i + 1, acc)
  ELSE IF t[i] \in Punct THEN Lex(t, i + 1, Append(acc, [t |-> PunctName(t[i]), raw |-> <<t[i]>>, v |-> <<>>]))
  ELSE IF t[i] = 34 THEN LET s == StrAt(t, i + 1, <<>>) IN
                         IF s.end = 0 THEN Bad ELSE Lex(t, s.end, Append(acc, [t |-> "str", raw |-> SubSeq(t, i, s.end - 1), v |-> s.v]))
  ELSE IF t[i] \in Digits \cup {45} THEN LET e == NumEnd(t, i) IN
                         IF e = 0 THEN Bad ELSE IF At(t, e) \in Digits THEN Bad ELSE Lex(t, e, Append(acc, [t |-> "num", raw |-> SubSeq(t, i, e - 1), v |-> <<>>]))
  ELSE IF Word(t, i, True) THEN Lex(t, i + 4, Append(acc, [t |-> "true", raw |-> True, v |-> <<>>]))
  ELSE IF Word(t, i, False) THEN Lex(t, i + 5, Append(acc, [t |-> "false", raw |-> False, v |-> <<>>]))
  ELSE IF Word(t, i, Nil) THEN Lex(t, i + 4, Append(acc, [t |-> "null", raw |-> Nil, v |-> <<>>]))
  ELSE Bad

\* ---------------------------------------------------------------- values
\* [ok, v, i: the next token]; a value is [k, s, c, n]
Val(k) == [k |-> k, s |-> <<>>, c |-> <<>>, n |-> <<>>]
No == [ok |-> FALSE, v |-> Val("bad"), i |-> 0]
Kind(ts, i) == IF i <= Len(ts) THEN ts[i].t ELSE "end"
RECURSIVE ParseAt(_, _), Elems(_, _, _), Members(_, _, _)
ParseAt(ts, i) ==
  LET k == Kind(ts, i) IN
  CASE k \in {"true", "false", "null"} -> [ok |-> TRUE, v |-> Val(k), i |-> i + 1]
    [] k = "num" -> [ok |-> TRUE, v |-> [Val("num") EXCEPT !.s = ts[i].raw], i |-> i + 1]
    [] k = "str" -> [ok |-> TRUE, v |-> [Val("str") EXCEPT !.s = ts[i].v], i |-> i + 1]
    [] k = "[" -> IF Kind(ts, i + 1) = "]" THEN [ok |-> TRUE, v |-> Val("arr"), i |-> i + 2] ELSE Elems(ts, i + 1, Val("arr"))
    [] k = "{" -> IF Kind(ts, i + 1) = "}" THEN [ok |-> TRUE, v |-> Val("obj"), i |-> i + 2] ELSE Members(ts, i + 1, Val("obj"))
    [] OTHER -> No
Elems(ts, i, acc) ==
  LET r == ParseAt(ts, i) IN
  IF ~r.ok THEN No
  ELSE LET a == [acc EXCEPT !.c = Append(@, r.v)] IN
       CASE Kind(ts, r.i) = "]" -> [ok |-> TRUE, v |-> a, i |-> r.i + 1]
         [] Kind(ts, r.i) = "," -> Elems(ts, r.i + 1, a)
         [] OTHER -> No
Members(ts, i, acc) ==
  IF Kind(ts, i) # "str" \/ Kind(ts, i + 1) # ":" THEN No
  ELSE LET r == ParseAt(ts, i + 2) IN
       IF ~r.ok THEN No
       ELSE LET a == [acc EXCEPT !.c = Append(@, r.v), !.n = Append(@, ts[i].v)] IN
            CASE Kind(ts, r.i) = "}" -> [ok |-> TRUE, v |-> a, i |-> r.i + 1]
              [] Kind(ts, r.i) = "," -> Members(ts, r.i + 1, a)
              [] OTHER -> No
Parse(ts) == LET r == ParseAt(ts, 1) IN IF r.ok /\ r.i = Len(ts) + 1 THEN r ELSE No

\* ---------------------------------------------------------------- layouts
Openers == {"{", "["}
Closers == {"}", "]"}
RECURSIVE Repeat(_, _), Laid(_, _, _, _, _, _)
Repeat(s, n) == IF n = 0 THEN <<>> ELSE s \o Repeat(s, n - 1)
\* the tokens from i on at depth d, written in a mode with the indent of the root
Laid(ts, i, d, mode, indent, acc) ==
  IF i > Len(ts) THEN acc
  ELSE LET tok == ts[i]
           prev == IF i = 1 THEN "start" ELSE ts[i - 1].t
           dd == IF tok.t \in Openers THEN d + 1 ELSE IF tok.t \in Closers THEN d - 1 ELSE d
           line == IF mode = "pretty" /\ (tok.t \in Closers \/ prev \in Openers \/ prev = ",")
                   THEN <<10>> \o indent \o Repeat(<<32, 32>>, IF tok.t \in Closers THEN dd ELSE d) ELSE <<>>
           after == IF (tok.t = ":" /\ mode # "compact") \/ (tok.t = "," /\ mode = "line") THEN <<32>> ELSE <<>>
       IN Laid(ts, i + 1, dd, mode, indent, acc \o line \o tok.raw \o after)
Layout(ts, mode, indent) == Laid(ts, 1, 0, mode, indent, <<>>)
RECURSIVE SeqLess(_, _)
SeqLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE SeqLess(Tail(a), Tail(b))
RECURSIVE Same(_, _), Sorted(_)
\* Does the parsed value p denote the document v?
Same(p, v) ==
  CASE v.k \in {"null", "true", "false"} -> p.k = v.k
    [] v.k = "int" -> p.k = "num" /\ Decimal(p.s) = Decimal(v.s)
    [] v.k = "float" -> IF Finite(v.f) THEN p.k = "num" /\ Denotes(Decimal(p.s), v.f) ELSE p.k = "null"
    [] v.k = "str" -> p.k = "str" /\ p.s = v.s
    [] v.k = "arr" -> p.k = "arr" /\ Len(p.c) = Len(v.c) /\ \A i \in 1..Len(v.c) : Same(p.c[i], v.c[i])
    [] v.k = "obj" -> /\ p.k = "obj" /\ Len(p.n) = Len(v.n)
                      /\ \A i \in 1..Len(v.n) : \E j \in 1..Len(p.n) : p.n[j] = v.n[i] /\ Same(p.c[j], v.c[i])
    [] OTHER -> FALSE
Sorted(p) == (p.k = "obj" => \A i \in 1..Len(p.n) - 1 : SeqLess(p.n[i], p.n[i + 1])) /\ \A i \in 1..Len(p.c) : Sorted(p.c[i])
=============================================================================
