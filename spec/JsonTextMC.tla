---------------------------- MODULE JsonTextMC ----------------------------
(* The reader of JSON texts checked against the grammar and the writer.     *)
EXTENDS JsonText
CONSTANTS Depth, MaxLen
Alphabet == {123, 125, 91, 93, 44, 58, 49, 32}
VARIABLES text, doc, mode, phase
vars == <<text, doc, mode, phase>>
\* ---------------- (1) every short byte sequence: read exactly when the grammar derives it
\* The grammar over the alphabet, plus the one name "" as it is the only string: { } [ ] , : 1 and space;
\* Derived(n): texts without spaces up to length n.
RECURSIVE Derived(_)
Derived(n) == IF n < 1 THEN {}
              ELSE {<<49>>, <<49, 49>>} \cup (IF n >= 2 THEN {<<91, 93>>, <<123, 125>>} ELSE {})
                   \cup (IF n >= 3 THEN {<<91>> \o x \o <<93>> : x \in Derived(n - 2)} ELSE {})
                   \cup (IF n >= 5 THEN {<<91>> \o x \o <<44>> \o y \o <<93>> : x \in Derived(n - 4), y \in Derived(n - 4)} ELSE {})
                   \cup (IF n >= 7 THEN {<<91>> \o x \o <<44>> \o y \o <<44>> \o z \o <<93>> : x \in Derived(n - 6), y \in Derived(n - 6), z \in Derived(n - 6)} ELSE {})
Ones(s) == \A i \in 1..Len(s) : s[i] = 49
IsNumber(s) == s # <<>> /\ Ones(s)
Strip(s) == SelectSeq(s, LAMBDA b : b # 32)
\* numbers longer than two digits are cut to two, as Derived knows only these
RECURSIVE Cut(_, _)
Cut(s, acc) == IF s = <<>> THEN acc
               ELSE IF s[1] = 49 /\ Len(acc) >= 2 THEN (IF acc[Len(acc)] = 49 /\ acc[Len(acc) - 1] = 49 THEN Cut(Tail(s), acc) ELSE Cut(Tail(s), Append(acc, 49)))
               ELSE Cut(Tail(s), Append(acc, s[1]))
\* a space within a number parts it
Split(s) == \E i \in 2..Len(s) - 1 : s[i] = 32 /\ \E a \in 1..(i - 1), b \in (i + 1)..Len(s) : s[a] = 49 /\ s[b] = 49 /\ \A k \in (a + 1)..(b - 1) : s[k] = 32
Texts == phase = "texts" => ((Parse(Lex(text, 1, <<>>)).ok) = (Cut(Strip(text), <<>>) \in Derived(MaxLen) /\ ~Split(text)))
\* ---------------- (2) every small document in every mode: reads back as itself
Strs == {<<>>, <<97>>, <<34>>, <<92, 10>>, <<1>>, <<195, 169>>}
Leaf == {[k |-> "null"], [k |-> "true"], [k |-> "int", s |-> <<45, 49, 50>>], [k |-> "int", s |-> <<48>>]} \cup {[k |-> "str", s |-> s] : s \in Strs}
RECURSIVE DocsOf(_)
DocsOf(d) == IF d = 0 THEN Leaf
             ELSE LET sub == DocsOf(d - 1) IN
                  Leaf \cup {[k |-> "arr", c |-> <<>>], [k |-> "obj", n |-> <<>>, c |-> <<>>]}
                  \cup {[k |-> "arr", c |-> <<x>>] : x \in sub} \cup {[k |-> "arr", c |-> <<x, y>>] : x \in sub, y \in Leaf}
                  \cup {[k |-> "obj", n |-> <<s>>, c |-> <<x>>] : s \in Strs, x \in sub} \cup {[k |-> "obj", n |-> <<<<97>>, <<98>>>>, c |-> <<x, y>>] : x \in sub, y \in {[k |-> "null"]}}
HexOf(v) == IF v < 10 THEN 48 + v ELSE 87 + v
EscByte(b) == CASE b = 34 -> <<92, 34>> [] b = 92 -> <<92, 92>> [] b = 10 -> <<92, 110>> [] b < 32 -> <<92, 117, 48, 48, HexOf(b \div 16), HexOf(b % 16)>> [] OTHER -> <<b>>
RECURSIVE Esc(_), Write(_), WriteAll(_, _), WriteMembers(_, _)
Esc(s) == IF s = <<>> THEN s ELSE EscByte(s[1]) \o Esc(Tail(s))
Tok(t, raw) == <<[t |-> t, raw |-> raw]>>
StrTok(s) == Tok("str", <<34>> \o Esc(s) \o <<34>>)
Write(v) == CASE v.k = "null" -> Tok("null", Nil) [] v.k = "true" -> Tok("true", True) [] v.k = "int" -> Tok("num", v.s) [] v.k = "str" -> StrTok(v.s)
              [] v.k = "arr" -> Tok("[", <<91>>) \o WriteAll(v.c, TRUE) \o Tok("]", <<93>>)
              [] v.k = "obj" -> Tok("{", <<123>>) \o WriteMembers(v, 1) \o Tok("}", <<125>>)
WriteAll(c, first) == IF c = <<>> THEN <<>> ELSE (IF first THEN <<>> ELSE Tok(",", <<44>>)) \o Write(c[1]) \o WriteAll(Tail(c), FALSE)
WriteMembers(v, i) == IF i > Len(v.c) THEN <<>> ELSE (IF i = 1 THEN <<>> ELSE Tok(",", <<44>>)) \o StrTok(v.n[i]) \o Tok(":", <<58>>) \o Write(v.c[i]) \o WriteMembers(v, i + 1)
ReadsBack == phase = "docs" => LET out == Layout(Write(doc), mode, <<>>)
                                   ts == Lex(out, 1, <<>>)
                                   p == Parse(ts) IN
                               p.ok /\ Same(p.v, doc) /\ Layout(ts, mode, <<>>) = out
\* ---------------- (3) doubles
F(neg, e, hi, lo) == [neg |-> neg, e |-> e, hi |-> hi, lo |-> lo]
Dec(s) == Decimal(s)
\* 0.1 and its neighbours; 1; 2^53 + 2; the smallest; the largest
ASSUME Denotes(Dec(<<48, 46, 49>>), F(FALSE, 1019, 40265318, 26843546))
ASSUME ~Denotes(Dec(<<48, 46, 49>>), F(FALSE, 1019, 40265318, 26843547))
ASSUME ~Denotes(Dec(<<48, 46, 49>>), F(FALSE, 1019, 40265318, 26843545))
ASSUME ~Denotes(Dec(<<45, 48, 46, 49>>), F(FALSE, 1019, 40265318, 26843546))
ASSUME Denotes(Dec(<<49>>), F(FALSE, 1023, 0, 0)) /\ Denotes(Dec(<<49, 48, 69, 45, 49>>), F(FALSE, 1023, 0, 0))
ASSUME ~Denotes(Dec(<<49>>), F(FALSE, 1023, 0, 1)) /\ ~Denotes(Dec(<<49>>), F(FALSE, 1022, 67108863, 67108863))
\* 9007199254740993 lies between two doubles: to the even one
ASSUME Denotes(Dec(<<57,48,48,55,49,57,57,50,53,52,55,52,48,57,57,51>>), F(FALSE, 1076, 0, 0)) /\ ~Denotes(Dec(<<57,48,48,55,49,57,57,50,53,52,55,52,48,57,57,51>>), F(FALSE, 1076, 0, 1))
ASSUME Denotes(Dec(<<53, 101, 45, 51, 50, 52>>), F(FALSE, 0, 0, 1)) /\ ~Denotes(Dec(<<53, 101, 45, 51, 50, 52>>), F(FALSE, 0, 0, 2))
ASSUME Denotes(Dec(<<49,46,55,57,55,54,57,51,49,51,52,56,54,50,51,49,53,55,101,43,51,48,56>>), F(FALSE, 2046, 67108863, 67108863))
ASSUME \A k \in 1..40 : LET h == (k % 4) * 16777216 IN Denotes(Dec(<<48 + (k \div 10), 48 + (k % 10)>>), F(FALSE, 1023, 0, 0)) = (k = 1)
\* ----------------
Init == \/ /\ phase = "texts" /\ doc = 0 /\ mode = "compact" /\ text = <<>>
        \/ /\ phase = "docs" /\ text = <<>> /\ mode \in {"compact", "line", "pretty"} /\ doc \in DocsOf(Depth)
Next == /\ phase = "texts" /\ Len(text) < MaxLen /\ text' \in {Append(text, b) : b \in Alphabet} /\ UNCHANGED <<doc, mode, phase>>
Spec == Init /\ [][Next]_vars
=============================================================================
