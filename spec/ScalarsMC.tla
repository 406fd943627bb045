----------------------------- MODULE ScalarsMC -----------------------------
(* The specified order is a total order: explored over all triples of a set  *)
(* of values of every kind.                                                  *)
EXTENDS Scalars, TLC
VARIABLES a, b, c
Mags == {<<1, 0, 0, 0, 32768>>, <<1, 1, 0, 0, 32768>>, <<1, 0, 0, 0, 32769>>, <<2, 0, 0, 0, 32768>>, <<64, 65535, 65535, 65535, 65535>>,
         <<-3, 0, 5, 0, 40000>>, <<-3, 0, 0, 5, 40000>>}
Vals == {<<0, s>> \o m : s \in {-1, 1}, m \in Mags} \cup {<<0, 0, 0, 0, 0, 0, 0>>, <<1, 1, 0, 0, 0, 0, 0>>, <<1, -1, 0, 0, 0, 0, 0>>, <<2, 0, 0, 0, 0, 0, 0>>}
Init == a \in Vals /\ b \in Vals /\ c \in Vals
Next == \/ \E v \in Vals : b' = v /\ UNCHANGED <<a, c>>
        \/ \E v \in Vals : c' = v /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b, c>>
Antisymmetric == Cmp(a, b) = -Cmp(b, a) /\ (Cmp(a, b) = 0 <=> a = b)
Transitive == Cmp(a, b) <= 0 /\ Cmp(b, c) <= 0 => Cmp(a, c) <= 0
StrictWeak == /\ ~Less(a, a)
              /\ (Less(a, b) => ~Less(b, a))
              /\ (Less(a, b) /\ Less(b, c) => Less(a, c))
=============================================================================
