----------------------------- MODULE BuildRules -----------------------------
(* Build files: texts (characters) of calls at the top level, attributes    *)
(* with strings, comments.  Which rules there are, which labels they depend *)
(* on, and what the two lints have to say.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NL == 10
Quote == 34
Bsl == 92
Word(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122 \/ c = 95
\* ---- tokens: [t: "id" | "str" | "op", v: characters, line, first: whether it starts its line]
RECURSIVE WordEnd(_, _), StrEnd(_, _), LineEnd(_, _)
WordEnd(s, i) == IF i <= Len(s) /\ Word(s[i]) THEN WordEnd(s, i + 1) ELSE i
StrEnd(s, i) == IF i > Len(s) \/ s[i] = Quote THEN i ELSE StrEnd(s, IF s[i] = Bsl THEN i + 2 ELSE i + 1)
LineEnd(s, i) == IF i > Len(s) \/ s[i] = NL THEN i ELSE LineEnd(s, i + 1)
RECURSIVE Scan(_, _, _, _)
Scan(s, i, line, acc) ==
  IF i > Len(s) THEN acc
  ELSE LET c == s[i] first == i = 1 \/ s[i - 1] = NL IN
       CASE c = NL -> Scan(s, i + 1, line + 1, acc)
         [] c \in {32, 9, 13} -> Scan(s, i + 1, line, acc)
         [] c = 35 -> Scan(s, LineEnd(s, i), line, acc)
         [] c = Quote -> LET e == StrEnd(s, i + 1) IN Scan(s, e + 1, line, Append(acc, [t |-> "str", v |-> SubSeq(s, i + 1, e - 1), line |-> line, first |-> first]))
         [] Word(c) -> LET e == WordEnd(s, i) IN Scan(s, e, line, Append(acc, [t |-> "id", v |-> SubSeq(s, i, e - 1), line |-> line, first |-> first]))
         [] OTHER -> Scan(s, i + 1, line, Append(acc, [t |-> "op", v |-> <<c>>, line |-> line, first |-> first]))
Tokens(s) == Scan(s, 1, 1, <<>>)
Is(k, t, v) == k.t = t /\ k.v = v
Opening(k) == k.t = "op" /\ k.v \in {<<40>>, <<91>>, <<123>>}
Closing(k) == k.t = "op" /\ k.v \in {<<41>>, <<93>>, <<125>>}
Name == <<110, 97, 109, 101>>
Deps == <<100, 101, 112, 115>>
IsLabel(v) == v # <<>> /\ (v[1] = 58 \/ v[1] = 64 \/ (Len(v) >= 2 /\ v[1] = 47 /\ v[2] = 47))
\* ---- the machine over tokens: depth of brackets, the rule being read, the attribute being read
Start == [depth |-> 0, rule |-> <<>>, attr |-> <<>>, rules |-> <<>>]
Step(m, ts, i) ==
  LET k == ts[i]
      next == IF i < Len(ts) THEN ts[i + 1] ELSE [t |-> "end", v |-> <<>>, line |-> 0, first |-> FALSE] IN
  IF m.depth = 0 THEN
    IF k.t = "id" /\ k.first /\ Is(next, "op", <<40>>) THEN [m EXCEPT !.rule = <<[kind |-> k.v, name |-> <<>>, line |-> k.line, deps |-> <<>>]>>]
    ELSE IF Opening(k) THEN [m EXCEPT !.depth = 1, !.attr = <<>>] ELSE [m EXCEPT !.rule = <<>>]
  ELSE IF Closing(k) THEN
    IF m.depth = 1 THEN [m EXCEPT !.depth = 0, !.attr = <<>>, !.rule = <<>>, !.rules = IF m.rule # <<>> /\ m.rule[1].name # <<>> THEN Append(@, m.rule[1]) ELSE @]
    ELSE [m EXCEPT !.depth = @ - 1]
  ELSE IF Opening(k) THEN [m EXCEPT !.depth = @ + 1]
  ELSE IF m.depth = 1 /\ Is(k, "op", <<44>>) THEN [m EXCEPT !.attr = <<>>]
  ELSE IF m.depth = 1 /\ k.t = "id" /\ Is(next, "op", <<61>>) THEN [m EXCEPT !.attr = k.v]
  ELSE IF m.rule = <<>> \/ k.t # "str" THEN m
  ELSE IF m.attr = Name /\ m.depth = 1 /\ m.rule[1].name = <<>> THEN [m EXCEPT !.rule[1].name = k.v]
  ELSE IF m.attr = Deps /\ IsLabel(k.v) THEN [m EXCEPT !.rule[1].deps = Append(@, k.v)]
  ELSE m
RECURSIVE Run(_, _, _)
Run(m, ts, i) == IF i > Len(ts) THEN m ELSE Run(TLCEval(Step(m, ts, i)), ts, i + 1)
Rules(text) == LET ts == TLCEval(Tokens(text)) IN Run(Start, ts, 1).rules
\* ---- lints
EndsWith(s, e) == Len(s) >= Len(e) /\ SubSeq(s, Len(s) - Len(e) + 1, Len(s)) = e
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
CcLibrary == <<99, 99, 95, 108, 105, 98, 114, 97, 114, 121>>
Cc == <<95, 99, 99>>
TestSuffix == <<95, 116, 101, 115, 116>>
Misnamed(rs) == {i \in 1..Len(rs) : rs[i].kind = CcLibrary /\ ~EndsWith(rs[i].name, Cc)}
\* the targets of the package a label names: ":x" or "//package:x"
Local(v, pkg) == LET q == <<47, 47>> \o pkg \o <<58>> IN
                 IF v[1] = 58 THEN {Tail(v)} ELSE IF StartsWith(v, q) THEN {SubSeq(v, Len(q) + 1, Len(v))} ELSE {}
Tested(rs, pkg) == UNION {UNION {Local(rs[i].deps[j], pkg) : j \in 1..Len(rs[i].deps)} : i \in {k \in 1..Len(rs) : EndsWith(rs[k].kind, TestSuffix)}}
Untested(rs, pkg) == {i \in 1..Len(rs) : rs[i].kind = CcLibrary /\ rs[i].name \notin Tested(rs, pkg)}
At(rs, I) == {<<rs[i].line, rs[i].name>> : i \in I}
\* ---- which files belong to the tree: parts of the directory, name of the file
Generated == <<98, 97, 122, 101, 108, 45>>
Foreign == {<<101, 120, 116, 101, 114, 110, 97, 108>>, <<116, 104, 105, 114, 100, 95, 112, 97, 114, 116, 121>>, <<46, 103, 105, 116>>}
BuildNames == {<<66, 85, 73, 76, 68>>, <<66, 85, 73, 76, 68, 46, 98, 97, 122, 101, 108>>}
Belongs(parts, file) == file \in BuildNames /\ \A i \in 1..Len(parts) : parts[i] \notin Foreign /\ ~StartsWith(parts[i], Generated)
=============================================================================
