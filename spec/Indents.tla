------------------------------ MODULE Indents ------------------------------
(* A raw text block as if it had no indentation.                             *)
EXTENDS Strings
IsBlank(s) == \A i \in 1..Len(s) : s[i] \in {9, 32}
Indent(s) == LET N == {n \in 0..Len(s) : \A i \in 1..n : s[i] \in {9, 32}} IN SubSeq(s, 1, Max(N))
Lines(s) ==
  LET dropped == s # <<>> /\ s[1] = 10                       \* an empty first line goes away
      ls == SplitAt(IF dropped THEN Tail(s) ELSE s, 10)
      first == IF dropped THEN 1 ELSE 2                       \* this line says what the indentation is
      ind == IF Len(ls) >= first THEN Indent(ls[first]) ELSE <<>>
      Cut(i) == IF i < first \/ Len(ls) < first THEN ls[i]
                ELSE IF i = Len(ls) /\ IsBlank(ls[i]) THEN <<>>
                ELSE IF StartsWith(ls[i], ind) THEN From(ls[i], Len(ind)) ELSE ls[i]
  IN [i \in 1..Len(ls) |-> Cut(i)]
Dropped(s) == IF s = <<10>> THEN s ELSE JoinSeq(Lines(s), <<10>>)
=============================================================================
