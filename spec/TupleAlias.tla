----------------------------- MODULE TupleAlias -----------------------------
(* An aggregate of N fields and the tuples of references derived from it.    *)
(* References alias the fields one to one and in order: a write through the  *)
(* aggregate or through the tuple changes that field and nothing else, and   *)
(* every view shows it.  Moving out transfers every field exactly once.      *)
EXTENDS Integers, Sequences
CONSTANTS MaxN, Values
VARIABLES fields,   \* current field values
          bools,    \* 1 where the field only holds truth values
          moved     \* how often each field was moved out
avars == <<fields, bools, moved>>
Coerce(b, v) == IF b = 1 THEN v % 2 ELSE v
New(bs) == /\ fields' = [i \in 1..Len(bs) |-> 0] /\ bools' = bs /\ moved' = [i \in 1..Len(bs) |-> 0]
Write(i, v) == /\ i \in 1..Len(fields)
               /\ fields' = [fields EXCEPT ![i] = Coerce(bools[i], v)]
               /\ UNCHANGED <<bools, moved>>
MoveOut == /\ \A i \in 1..Len(fields) : moved[i] = 0
           /\ moved' = [i \in 1..Len(fields) |-> 1] /\ UNCHANGED <<fields, bools>>
View == fields
Init == \E n \in 0..MaxN, bs \in UNION {[1..k -> {0, 1}] : k \in 0..MaxN} :
          Len(bs) = n /\ bools = bs /\ fields = [i \in 1..n |-> 0] /\ moved = [i \in 1..n |-> 0]
Next == (\E i \in 1..Len(fields), v \in Values : Write(i, v)) \/ MoveOut
Spec == Init /\ [][Next]_avars
TypeOk == \A i \in 1..Len(fields) : fields[i] \in Values \cup {0} /\ (bools[i] = 1 => fields[i] \in {0, 1}) /\ moved[i] \in {0, 1}
\* a step changes at most one field
OneField == [][\A i, j \in 1..Len(fields) : (fields'[i] # fields[i] /\ fields'[j] # fields[j]) => i = j]_avars
=============================================================================
