----------------------------- MODULE MopeToolMC ------------------------------
(* Command lines of the template program, built setting by setting; the data  *)
(* (st) is carried along one setting at a time.                               *)
EXTENDS MopeTool
CONSTANT MaxItems
VARIABLES items, st, ini
vars == <<items, st, ini>>
a == <<97>>
b == <<98>>
s == <<115>>
Vocabulary == {<<97, 61, 49>>, <<97, 61, 50, 61, 51>>, <<58, 97, 61, 57>>, <<58, 97, 61, 56>>, <<115, 58, 97, 61, 52>>, <<115, 58, 97, 61>>, <<115, 58, 115, 58, 98, 61, 53>>, <<98>>,
               <<58>>, <<>>, <<97, 58>>, <<115, 58, 58, 97, 61, 49>>, <<58, 57, 61, 49>>, <<97, 58, 98, 61, 54>>}
Inis == {<<>>, <<98, 61, 55, 10, 91, 115, 93, 10, 97, 61, 55>>, <<91, 115, 58, 49, 93, 10, 97, 61, 55, 10, 91, 115, 93, 10, 97, 61, 54>>}
Init == items = <<>> /\ st = Nothing /\ ini \in Inis
Next == Len(items) < MaxItems /\ UNCHANGED ini /\ \E i \in Vocabulary : items' = Append(items, i) /\ st' = Apply(st, i)
Spec == Init /\ [][Next]_vars
Line == JoinSeq(items, <<44>>)
Tpl == <<123, 123>> \o a \o <<125, 125>>
Each == <<123, 123, 35, 115, 58, 34, 44, 34, 125, 125, 123, 123, 97, 125, 125, 123, 123, 47, 115, 125, 125>>
Texts0 == {<<>>, <<120>>, Tpl, Each}
F(n, v) == [n |-> n, b |-> v]
Tf(t) == <<[name |-> <<116>>, kind |-> 1, data |-> t], [name |-> <<105>>, kind |-> 1, data |-> ini], [name |-> <<111>>, kind |-> 0, data |-> <<>>]>>
Out(t) == Run(<<F("template", <<116>>), F("set", Line), F("ini", <<105>>)>>, 0, Tf(t))
\* the data is what the whole list says
OneByOne == st = ApplyAll(items) /\ (items # <<<<>>>> => Items(Line) = items)
Sticky == [][st.code # OkC => st' = st]_vars
\* failing says nothing; the text does not matter where only the settings are wrong
Silent == \A t \in Texts0 : LET r == Out(t) IN (r.code = Failure => r = Failed) /\ (st.code # OkC /\ items # <<<<>>>> => r.code = Failure)
\* text without tags comes out as it is
Plain == \A t \in {<<>>, <<120>>} : LET r == Out(t) IN r.code = Success => r.out = t
\* what is shown of a: the value set at the root, else everywhere, else the tag itself
Roots(k) == {i \in 1..Len(items) : KeyOf(items[i]) = k}
ShownA == LET r == Out(Tpl) own == Roots(a) all == Roots(<<58>> \o a) IN
          r.code = Success => r.out = IF own # {} THEN ValueOf(items[Max(own)]) ELSE IF all # {} THEN ValueOf(items[Max(all)]) ELSE Tpl
OnlyOnce == st.code = OkC => Cardinality(Roots(a)) <= 1
\* a section is shown once for each setting in it, in their order, then for each group
ShownS == LET r == Out(Each)
              here == SelectSeq(items, LAMBDA i : KeyOf(i) = <<115, 58, 97>>)
              nested == \E k \in 1..Len(items) : Len(SplitAt(KeyOf(items[k]), 58)) > 2
              groups == IF ini = <<>> THEN <<>> ELSE IF Len(ini) < 14 THEN <<<<55>>>> ELSE <<<<54>>, <<55>>>> IN
          r.code = Success /\ ~nested => r.out = JoinSeq([k \in 1..Len(here) |-> ValueOf(here[k])] \o groups, <<44>>)
\* the same text goes to the file that is asked for, and nowhere else
ToFile == \A t \in Texts0 :
  LET fs == <<F("template", <<116>>), F("set", Line), F("ini", <<105>>), F("generate", <<111>>)>> r == Run(fs, 0, Tf(t)) f == After(fs, 0, Tf(t)) IN
  /\ r.code = Out(t).code /\ r.out = <<>> /\ f[1] = Tf(t)[1] /\ f[2] = Tf(t)[2]
  /\ f[3] = IF r.code = Success THEN [name |-> <<111>>, kind |-> 1, data |-> Out(t).out] ELSE Tf(t)[3]
\* an empty setting of everything is none; a later flag counts
Flags == \A t \in Texts0 : /\ Run(<<F("set", <<97, 58>>), F("template", <<>>), F("template", <<116>>), F("set", Line), F("generate", <<111>>), F("ini", <<105>>), F("generate", <<45>>)>>, 0, Tf(t)) = Out(t)
                           /\ Run(<<F("template", <<116>>), F("set", Line)>>, 1, Tf(t)) = Failed /\ Run(<<F("set", Line)>>, 0, Tf(t)) = Failed
                           /\ Run(<<F("template", <<111>>), F("set", Line)>>, 0, Tf(t)) = Failed
=============================================================================
