------------------------------ MODULE GlobsMC ------------------------------
(* The promises of patterns, checked for all short patterns and paths. *)
EXTENDS Globs
CONSTANTS Alpha, Max, TextAlpha, TextMax
VARIABLE p
Init == p = <<>>
Next == Len(p) < Max /\ \E c \in Alpha : p' = Append(p, c)
Spec == Init /\ [][Next]_p
RECURSIVE Upto(_)
Upto(n) == IF n = 0 THEN {<<>>} ELSE LET U == Upto(n - 1) IN U \cup {Append(s, c) : s \in U, c \in TextAlpha}
Texts == TLCEval(Upto(TextMax))
O == [ss |-> TRUE, ranges |-> TRUE]
O1 == [ss |-> FALSE, ranges |-> TRUE]
O2 == [ss |-> TRUE, ranges |-> FALSE]
T == Tokens(p, O)
Plain == \A i \in 1..Len(p) : p[i] \notin {42, 63, 91, 92}
\* a pattern without special characters matches itself only (up to doubled slashes)
Literal == Plain => {s \in Texts : Matches(Elements(T), s)} = {Text(T)} \cap Texts
NoDirs == (~IsBad(T) /\ \A i \in 1..Len(T) : T[i].k # "ss" /\ T[i].k # "set") =>
   LET k == Cardinality({i \in 1..Len(T) : IsSlash(T[i])}) E == Elements(T) IN
   \A s \in Texts : Matches(E, s) => Cardinality({i \in 1..Len(s) : s[i] = SL}) = k
StarStarMore == LET A == Tokens(p, O) B == Tokens(p, O1) IN
   (~IsBad(A) /\ \A i \in 1..Len(A) : A[i].k # "ss") => A = B
NormalForm == ~IsBad(T) => \A i \in 1..Len(T) - 1 : IsSlash(T[i]) /\ IsSlash(T[i + 1]) => i > 1 /\ T[i - 1] = Lit(58, FALSE)
\* what is split off and the rest make up the pattern: below the root, a path matches if its rest does
SplitOk == ~IsBad(T) => LET r == Split(T) IN
   /\ \A i \in 1..Len(T) : ~Special(T[i]) => TRUE
   /\ (r.rest = <<>> => r.root = Text(T))
   /\ (r.rest # <<>> /\ r.root # <<>>) =>
        LET dir == IF r.root = <<SL>> THEN r.root ELSE r.root \o <<SL>> E == Elements(r.rest) W == Elements(T) IN
        \A s \in {x \in Texts : Len(x) <= 2 /\ x # <<>> /\ x[1] # SL} : Matches(E, s) => Matches(W, dir \o s)
NoRanges == LET U == Tokens(p, O2) IN ~IsBad(U) => \A i \in 1..Len(U) : U[i].k # "set"
Inv == Literal /\ NoDirs /\ StarStarMore /\ NormalForm /\ SplitOk /\ NoRanges
=============================================================================
