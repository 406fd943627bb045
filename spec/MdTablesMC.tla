----------------------------- MODULE MdTablesMC -----------------------------
(* Every document of up to four of these lines.                             *)
EXTENDS MdTables
VARIABLES doc, out
A == 97
P == Pipe
MCLines == {<<>>, <<A>>, <<P, A, P>>, <<A, P, A, A, A, A>>, <<P, 45, P>>, <<58, 45, P, 45, 58>>, <<32, P, 58, 45, 45, 58>>,
            <<A, Bsl, P, P, A>>, <<P, A, Bsl, Bsl, P>>, <<96, 96, 96>>, <<126, 126, 126, A>>, <<96, 96, 96, 96>>, <<A, A, Bsl, P>>}
Init == doc = <<>> /\ out = <<>>
AddLine == Len(doc) < 4 /\ out = <<>> /\ \E s \in MCLines : doc' = Append(doc, s) /\ UNCHANGED out
DoAlign == doc # <<>> /\ out = <<>> /\ out' = Align(doc) /\ UNCHANGED doc
Next == AddLine \/ DoAlign
Spec == Init /\ [][Next]_<<doc, out>>
Text(k) == {i \in 1..Len(k) : k[i] \in {"text", "code"}}
\* promises
Accepted == out # <<>> => AlignedOk(doc, out)
Stable == out # <<>> => Align(out) = out /\ Kinds(out) = Kinds(doc)
SameCells == out # <<>> => LET k == Kinds(doc) IN \A i \in 1..Len(doc) : i \notin Text(k) /\ k[i] # "delim" =>
               LET a == Cells(doc[i]) b == Cells(out[i]) IN Len(a) <= Len(b) /\ \A j \in 1..Len(b) : b[j] = Cell(a, j)
SameSides == out # <<>> => LET k == Kinds(doc) IN \A i \in 1..Len(doc) : k[i] = "delim" =>
               LET a == Cells(doc[i]) b == Cells(out[i]) IN \A j \in 1..Len(b) : Side(b[j]) = Side(Cell(a, j))
SameColumns == out # <<>> => \A t \in Tables(Kinds(doc)) : \A i, j \in t[1]..t[2] : Seps(out[i]) = Seps(out[j])
=============================================================================
