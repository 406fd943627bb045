------------------------------ MODULE Quoting ------------------------------
(***************************************************************************)
(* The scanner of quoted and escaped strings.  A state: i bytes consumed,  *)
(* q the open quote (0, 34 or 39), out what was read, done: 0 running,     *)
(* 1 read, 2 malformed, 3 not supported.                                   *)
(* Options: stop, split, esc (bytes), stopstr (text), dq, sq (quotes that  *)
(* are enabled), rmq (quotes are removed), unq (other bytes may be outside *)
(* of quotes).                                                             *)
(***************************************************************************)
EXTENDS Strings, TLC
CONSTANTS Alphabet, MaxLen, Options
VARIABLES opts, text, st
In(set, c) == \E k \in 1..Len(set) : set[k] = c
StopHere(o, s, i) == In(o.stop, s[i + 1]) \/ (o.stopstr # <<>> /\ OccursAt(s, o.stopstr, i))
Stops(o, s, i) == StopHere(o, s, i) \/ In(o.split, s[i + 1])
Opens(o, c) == (c = 34 /\ o.dq) \/ (c = 39 /\ o.sq)
IsOct(c) == c \in 48..55
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
\* number of leading octal (at most 3) or hex digits (at most 2) at position i
Run(s, i, max, Ok(_)) == LET N == {n \in 0..max : i + n <= Len(s) /\ \A k \in 1..n : Ok(s[i + k])} IN Max(N)
RECURSIVE Value(_, _, _, _)
Value(s, i, n, base) == IF n = 0 THEN 0 ELSE Value(s, i, n - 1, base) * base + HexVal(s[i + n])
Bad(code) == [n |-> 0, v |-> 0, err |-> code]
Got(n, v) == IF v > 255 THEN Bad(2) ELSE [n |-> n, v |-> v, err |-> 0]
IsHex(c) == HexVal(c) >= 0
Braced(s, i, max, base, Ok(_)) ==  \* {digits}
  LET n == Run(s, i + 1, max, Ok) IN
  IF i < Len(s) /\ s[i + 1] = 123 /\ n > 0 /\ i + n + 2 <= Len(s) /\ s[i + n + 2] = 125 THEN Got(n + 2, Value(s, i + 1, n, base)) ELSE Bad(2)
Simple == [c \in {39, 34, 63, 92} |-> c] @@ (97 :> 7) @@ (98 :> 8) @@ (102 :> 12) @@ (110 :> 10) @@ (114 :> 13) @@ (116 :> 9) @@ (118 :> 11)
\* the escape sequence behind the backslash before position i: n bytes long, meaning v
Escape(o, s, i) ==
  IF i >= Len(s) THEN Bad(2)
  ELSE LET c == s[i + 1] IN
       CASE In(o.esc, c) -> Got(1, c)
         [] ~In(o.esc, c) /\ c \in DOMAIN Simple -> Got(1, Simple[c])
         [] ~In(o.esc, c) /\ IsOct(c) -> LET n == Run(s, i, 3, IsOct) IN Got(n, Value(s, i, n, 8))
         [] ~In(o.esc, c) /\ c = 111 -> LET b == Braced(s, i + 1, 3, 8, IsOct) IN [b EXCEPT !.n = @ + 1]
         [] ~In(o.esc, c) /\ c = 120 -> IF i + 1 < Len(s) /\ s[i + 2] = 123 THEN LET b == Braced(s, i + 1, 2, 16, IsHex) IN [b EXCEPT !.n = @ + 1]
                                        ELSE LET n == Run(s, i + 1, 2, IsHex) IN IF n = 0 THEN Bad(2) ELSE Got(n + 1, Value(s, i + 1, n, 16))
         [] ~In(o.esc, c) /\ c \in {117, 85, 78} -> Bad(3)
         [] OTHER -> Bad(2)
Start(i) == [i |-> i, q |-> 0, out |-> <<>>, done |-> 0]
Step(o, s, t) ==
  IF t.i = Len(s) THEN [t EXCEPT !.done = IF t.q = 0 THEN 1 ELSE 2]
  ELSE LET c == s[t.i + 1] IN
       IF t.q = 0 /\ (Stops(o, s, t.i) \/ (~o.unq /\ ~Opens(o, c))) THEN [t EXCEPT !.done = 1]
       ELSE IF t.q # 0 /\ c = t.q THEN [t EXCEPT !.i = @ + 1, !.q = 0, !.out = IF o.rmq THEN @ ELSE Append(@, c)]
       ELSE IF t.q = 0 /\ Opens(o, c) THEN [t EXCEPT !.i = @ + 1, !.q = c, !.out = IF o.rmq THEN @ ELSE Append(@, c)]
       ELSE IF c # 92 THEN [t EXCEPT !.i = @ + 1, !.out = Append(@, c)]
       ELSE LET e == Escape(o, s, t.i + 1) IN
            IF e.err # 0 THEN [t EXCEPT !.done = e.err] ELSE [t EXCEPT !.i = @ + 1 + e.n, !.out = Append(@, e.v)]
RECURSIVE Scan(_, _, _)
Scan(o, s, t) == IF t.done # 0 THEN t ELSE Scan(o, s, Step(o, s, t))
Parse(o, s, i) == Scan(o, s, Start(i))
\* lists: elements up to a separator each; behind a stop, or what is neither, nothing is read
ListOpts(o) == IF o.split = <<>> THEN [o EXCEPT !.split = <<44>>] ELSE o
RECURSIVE Elements(_, _, _, _)
Elements(o, s, i, outs) ==
  LET t == Parse(o, s, i) IN
  IF t.done # 1 THEN [done |-> t.done, i |-> t.i, outs |-> outs]
  ELSE IF t.i < Len(s) /\ ~StopHere(o, s, t.i) /\ In(o.split, s[t.i + 1]) THEN Elements(o, s, t.i + 1, Append(outs, t.out))
  ELSE [done |-> 1, i |-> t.i, outs |-> Append(outs, t.out)]
ParseList(o, s) == LET p == ListOpts(o) IN
  IF s = <<>> \/ StopHere(p, s, 0) THEN [done |-> 1, i |-> 0, outs |-> <<>>] ELSE Elements(p, s, 0, <<>>)

\* ------------------------------------------------------- the machine, for every text
Init == opts \in Options /\ text \in UNION {[1..n -> Alphabet] : n \in 0..MaxLen} /\ st = Start(0)
Next == st.done = 0 /\ st' = Step(opts, text, st) /\ UNCHANGED <<opts, text>>
Spec == Init /\ [][Next]_<<opts, text, st>> /\ WF_st(Next)
InText == st.i \in 0..Len(text) /\ Len(st.out) <= st.i
\* it only ever goes forward, and ends
Forward == [][st'.i > st.i \/ st'.done # 0]_st
Ends == <>(st.done # 0)
\* it stops early only at a byte that may stop it, outside of quotes
StopsRight == st.done = 1 /\ st.i < Len(text) => st.q = 0 /\ (Stops(opts, text, st.i) \/ ~opts.unq)
\* a text without quotes, escapes and stops is read as it is
Plain == st.done = 1 /\ opts.unq /\ (\A k \in 1..Len(text) : text[k] \notin {34, 39, 92}) => st.out = SubSeq(text, 1, st.i)
\* quoting any text, with its quotes and backslashes escaped, and reading that gives the text
Quote(s) == <<34>> \o JoinSeq([k \in 1..Len(s) |-> IF s[k] \in {34, 92} THEN <<92, s[k]>> ELSE <<s[k]>>], <<>>) \o <<34>>
RoundTrip == st.i = 0 /\ opts.dq /\ opts.rmq /\ ~In(opts.stop, 34) /\ ~In(opts.split, 34) /\ (opts.stopstr = <<>> \/ opts.stopstr[1] # 34)
             => Parse(opts, Quote(text), 0) = [i |-> Len(Quote(text)), q |-> 0, out |-> text, done |-> 1]
\* a list is its elements one at a time
OneAtATime == st.i = 0 => LET L == ParseList(opts, text) p == ListOpts(opts) f == Parse(p, text, 0) IN
                          L.outs # <<>> => L.outs[1] = f.out /\ (Len(L.outs) > 1 => In(p.split, text[f.i + 1]))
=============================================================================
