------------------------------- MODULE Globs -------------------------------
(* Glob patterns: reading a pattern into tokens, normal form, matching of   *)
(* paths, and splitting off the literal directory.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
SL == 47
BSL == 92
STAR == 42
Bad == <<[k |-> "bad", c |-> 0, e |-> FALSE, n |-> FALSE, s |-> {}]>>
Tok(k) == [k |-> k, c |-> 0, e |-> FALSE, n |-> FALSE, s |-> {}]
Lit(c, e) == [k |-> "lit", c |-> c, e |-> e, n |-> FALSE, s |-> {}]
Set(n, s) == [k |-> "set", c |-> 0, e |-> FALSE, n |-> n, s |-> s]
IsBad(ts) == ts = Bad
Lower == 97..122
Upper == 65..90
Digit == 48..57
Punct == (33..47) \cup (58..64) \cup (91..96) \cup (123..126)
Class(name) ==
  CASE name = <<97,108,112,104,97>> -> Lower \cup Upper
    [] name = <<100,105,103,105,116>> -> Digit
    [] name = <<97,108,110,117,109>> -> Lower \cup Upper \cup Digit
    [] name = <<108,111,119,101,114>> -> Lower
    [] name = <<117,112,112,101,114>> -> Upper
    [] name = <<115,112,97,99,101>> -> 9..13 \cup {32}
    [] name = <<98,108,97,110,107>> -> {9, 32}
    [] name = <<112,117,110,99,116>> -> Punct
    [] name = <<120,100,105,103,105,116>> -> Digit \cup (97..102) \cup (65..70)
    [] name = <<99,110,116,114,108>> -> 0..31 \cup {127}
    [] name = <<103,114,97,112,104>> -> 33..126
    [] name = <<112,114,105,110,116>> -> 32..126
    [] name = <<97,115,99,105,105>> -> 0..127
    [] name = <<119,111,114,100>> -> Lower \cup Upper \cup Digit \cup {95}
    [] OTHER -> {}
RECURSIVE NameEnd(_, _)
\* position of the ':' of the next ":]", 0 if none
NameEnd(p, i) == IF i >= Len(p) THEN 0 ELSE IF p[i] = 58 /\ p[i + 1] = 93 THEN i ELSE NameEnd(p, i + 1)
At(p, i) == IF i <= Len(p) THEN p[i] ELSE -1
\* One character of a range at i: <<char, next>>; next = 0: none (end of pattern, lone escape).
Atom(p, i) == IF i > Len(p) THEN <<0, 0>>
              ELSE IF p[i] # BSL THEN <<p[i], i + 1>>
              ELSE IF i = Len(p) THEN <<0, 0>> ELSE <<p[i + 1], i + 2>>
RECURSIVE Items(_, _, _, _)
\* The members of a range from i up to its end: <<set, position after ']'>>, position 0: malformed.
Items(p, i, first, s) ==
  IF i > Len(p) THEN <<{}, 0>>
  ELSE IF p[i] = 93 /\ ~first THEN <<s, i + 1>>
  ELSE IF p[i] = 91 /\ At(p, i + 1) = 58
    THEN LET e == NameEnd(p, i + 2) IN
         IF e = 0 THEN <<{}, 0>>
         ELSE LET m == Class(SubSeq(p, i + 2, e - 1)) IN
              IF m = {} THEN <<{}, 0>> ELSE Items(p, e + 2, FALSE, s \cup m)
  ELSE LET a == Atom(p, i) IN
       IF a[2] = 0 THEN <<{}, 0>>
       ELSE IF At(p, a[2]) = 45 /\ At(p, a[2] + 1) # 93
         THEN LET b == Atom(p, a[2] + 1) IN
              IF b[2] = 0 \/ b[1] < a[1] THEN <<{}, 0>>
              ELSE Items(p, b[2], FALSE, s \cup a[1]..b[1])
       ELSE Items(p, a[2], FALSE, s \cup {a[1]})
\* A range that starts at i ('['): [neg, set, next].
Range(p, i) == LET neg == At(p, i + 1) = 33
                   r == Items(p, IF neg THEN i + 2 ELSE i + 1, TRUE, {}) IN [neg |-> neg, set |-> r[1], next |-> r[2]]
IsSlash(t) == t.k = "lit" /\ t.c = SL
\* appending to the normal form: no second slash, except after an unescaped colon; at most two stars
AddSlash(ts) == LET n == Len(ts) IN
  IF n = 0 \/ ~IsSlash(ts[n]) THEN Append(ts, Lit(SL, FALSE))
  ELSE IF n > 1 /\ ts[n - 1] = Lit(58, FALSE) THEN Append(ts, Lit(SL, FALSE)) ELSE ts
AddStar(ts, ss) == LET n == Len(ts) IN
  IF n > 0 /\ ts[n].k = "ss" THEN ts
  ELSE IF n > 0 /\ ts[n].k = "star" THEN (IF ss THEN Append(SubSeq(ts, 1, n - 1), Tok("ss")) ELSE ts)
  ELSE Append(ts, Tok("star"))
RECURSIVE Trim(_)
Trim(ts) == IF Len(ts) > 1 /\ IsSlash(ts[Len(ts)]) THEN Trim(SubSeq(ts, 1, Len(ts) - 1)) ELSE ts
RECURSIVE Read(_, _, _, _, _)
Read(p, i, o, ts, m) ==   \* o: [ss, ranges]
  IF i > Len(p) THEN Trim(ts)
  ELSE LET c == p[i] IN
    IF c = BSL THEN (IF i = Len(p) THEN Bad
                     ELSE Read(p, i + 2, o, IF p[i + 1] = SL THEN AddSlash(ts) ELSE Append(ts, Lit(p[i + 1], TRUE)), m))
    ELSE IF c = STAR THEN Read(p, i + 1, o, AddStar(ts, o.ss), m)
    ELSE IF c = 63 THEN Read(p, i + 1, o, Append(ts, Tok("any")), m)
    ELSE IF c = SL THEN Read(p, i + 1, o, AddSlash(ts), m)
    ELSE IF c = 91 /\ o.ranges THEN
      IF At(p, i + 1) = SL /\ At(p, i + 2) = 93 THEN Read(p, i + 3, o, AddSlash(ts), m)
      ELSE LET r == Range(p, i) IN IF r.next = 0 THEN Bad ELSE Read(p, r.next, o, Append(ts, Set(r.neg, r.set)), m)
    ELSE Read(p, i + 1, o, Append(ts, Lit(c, FALSE)), m)
Tokens(p, o) == Read(p, 1, o, <<>>, 0)
(* Matching: elements of a pattern as steps over sets of positions in the path. *)
Slashy(ts, i) == i > Len(ts) \/ IsSlash(ts[i])
RECURSIVE Elems(_, _, _)
Elems(ts, i, es) ==
  IF i > Len(ts) THEN es
  ELSE LET t == ts[i] n == Len(es) IN
    IF t.k # "ss" THEN Elems(ts, i + 1, Append(es, t))
    ELSE IF n > 0 /\ IsSlash(es[n]) /\ Slashy(ts, i + 1)
      THEN Elems(ts, i + 1, Append(SubSeq(es, 1, n - 1), Tok("below")))     \* X/** : X or anything below
    ELSE IF n = 0 /\ i < Len(ts) /\ IsSlash(ts[i + 1])
      THEN Elems(ts, i + 2, Append(es, Tok(IF i + 2 <= Len(ts) /\ ts[i + 2].k = "ss" /\ Slashy(ts, i + 3) THEN "heads" ELSE "head")))
    ELSE Elems(ts, i + 1, Append(es, Tok("all")))
Elements(ts) == Elems(ts, 1, <<>>)
NoSlash(s, a, b) == \A i \in a..b : s[i] # SL
Step(e, s, P) ==
  LET n == Len(s) IN
  CASE e.k = "lit" -> {p + 1 : p \in {q \in P : q < n /\ s[q + 1] = e.c}}
    [] e.k = "any" -> {p + 1 : p \in {q \in P : q < n /\ s[q + 1] # SL}}
    [] e.k = "set" -> {p + 1 : p \in {q \in P : q < n /\ (s[q + 1] \in e.s) # e.n}}
    [] e.k = "star" -> {q \in 0..n : \E p \in P : p <= q /\ NoSlash(s, p + 1, q)}
    [] e.k = "all" -> {q \in 0..n : \E p \in P : p <= q}
    [] e.k = "below" -> P \cup {q \in 0..n : \E p \in P : q >= p + 2 /\ s[p + 1] = SL}
    [] e.k = "head" -> P \cup {q \in 1..n : s[q] = SL /\ \E p \in P : q >= p + 2}
    [] e.k = "heads" -> {q \in 1..n : s[q] = SL /\ \E p \in P : q >= p + 2}
RECURSIVE Run(_, _, _, _)
Run(es, i, s, P) == IF P = {} \/ i > Len(es) THEN P ELSE Run(es, i + 1, s, Step(es[i], s, P))
Matches(es, s) == Len(s) \in Run(es, 1, s, {0})
(* Splitting *)
Special(t) == t.k # "lit" \/ (t.c = 91 /\ ~t.e)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE Text(_)
Text(ts) == IF ts = <<>> THEN <<>> ELSE <<Head(ts).c>> \o Text(Tail(ts))
\* [root: bytes, rest: tokens]
Split(ts) ==
  LET sp == {i \in 1..Len(ts) : Special(ts[i])} IN
  IF sp = {} THEN [root |-> Text(ts), rest |-> <<>>]
  ELSE LET cuts == {i \in 1..MinOf(sp) - 1 : IsSlash(ts[i])} IN
       IF cuts = {} THEN [root |-> <<>>, rest |-> ts]
       ELSE LET j == MaxOf(cuts) IN
            [root |-> IF j = 1 THEN <<SL>> ELSE Text(SubSeq(ts, 1, j - 1)), rest |-> SubSeq(ts, j + 1, Len(ts))]
\* the path part and the file part of a pattern
Parts(ts) ==
  LET sl == {i \in 1..Len(ts) : IsSlash(ts[i])}
      j == IF sl = {} THEN 0 ELSE MaxOf(sl)
      tail == SubSeq(ts, j + 1, Len(ts)) IN
  IF \E i \in 1..Len(tail) : tail[i].k = "set" /\ ~tail[i].n /\ SL \in tail[i].s THEN [path |-> ts, file |-> <<>>, mixed |-> TRUE]
  ELSE IF j = 0 THEN [path |-> <<>>, file |-> ts, mixed |-> FALSE]
  ELSE IF tail = <<>> \/ \E i \in 1..Len(tail) : tail[i].k = "ss" THEN [path |-> ts, file |-> <<>>, mixed |-> FALSE]
  ELSE [path |-> SubSeq(ts, 1, j - 1), file |-> tail, mixed |-> FALSE]
=============================================================================
