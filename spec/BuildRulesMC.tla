---------------------------- MODULE BuildRulesMC ----------------------------
(* Files written rule by rule in every layout; reading gives what was       *)
(* written, and the lints say what they have to.                            *)
EXTENDS BuildRules
VARIABLES text, wrote
\* characters of small texts
Q(s) == <<Quote>> \o s \o <<Quote>>
La == <<97, 95, 99, 99>>
Lb == <<98>>
Test == <<99, 99>> \o TestSuffix
Kinds == {CcLibrary, Test}
DepSets == {<<>>, <<<<58>> \o La>>, <<<<58>> \o Lb, <<47, 47, 112, 58>> \o La>>, <<<<47, 47, 113, 58>> \o La>>, <<<<64, 112, 47, 47, 58>> \o Lb>>}
Ind == <<32, 32, 32, 32>>
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))
NameAttr(n) == Ind \o Name \o <<32, 61, 32>> \o Q(n) \o <<44, NL>>
DepsAttr(d, multi) == Ind \o Deps \o <<32, 61, 32, 91>> \o Cat([i \in 1..Len(d) |-> (IF multi THEN <<NL>> \o Ind \o Ind ELSE <<>>) \o Q(d[i]) \o <<44>>])
                      \o (IF multi THEN <<NL, 35>> \o Q(<<58>> \o Lb) \o <<NL>> \o Ind ELSE <<>>) \o <<93, 44, NL>>
Data == Ind \o <<100, 97, 116, 97, 32, 61, 32, 91>> \o Q(<<58>> \o La) \o <<93, 44, 32, 35, 41, NL>>
Layouts == 1..3
Write(k, n, d, lay) ==
  CASE lay = 1 -> k \o <<40, NL>> \o NameAttr(n) \o DepsAttr(d, FALSE) \o <<41, NL>>
    [] lay = 2 -> k \o <<40, NL>> \o NameAttr(n) \o Data \o DepsAttr(d, TRUE) \o <<41, NL, NL>>
    [] lay = 3 -> <<35, NL>> \o k \o <<40, NL>> \o DepsAttr(d, TRUE) \o Data \o NameAttr(n) \o <<41, NL>>
LinesIn(s) == Cardinality({i \in 1..Len(s) : s[i] = NL})
Init == text = <<>> /\ wrote = <<>>
Next == /\ Len(wrote) < 2
        /\ \E k \in Kinds : \E n \in {La, Lb} : \E d \in DepSets : \E lay \in Layouts :
             /\ text' = text \o Write(k, n, d, lay)
             /\ wrote' = Append(wrote, [kind |-> k, name |-> n, line |-> LinesIn(text) + 1 + (IF lay = 3 THEN 1 ELSE 0), deps |-> d])
Spec == Init /\ [][Next]_<<text, wrote>>
ReadsWhatIsWritten == Rules(text) = wrote
TestedOrTold == LET rs == Rules(text) IN \A i \in 1..Len(rs) : rs[i].kind = CcLibrary =>
                  (i \in Untested(rs, <<112>>)) = ~\E j \in 1..Len(rs) : rs[j].kind = Test /\ (\E x \in 1..Len(rs[j].deps) : rs[j].deps[x] \in {<<58>> \o rs[i].name, <<47, 47, 112, 58>> \o rs[i].name})
NamedOrTold == LET rs == Rules(text) IN At(rs, Misnamed(rs)) = {<<rs[i].line, Lb>> : i \in {k \in 1..Len(rs) : rs[k].kind = CcLibrary /\ rs[k].name = Lb}}
=============================================================================
