------------------------------ MODULE PathsMC ------------------------------
(* The promises of normalization, checked for all short paths. *)
EXTENDS Paths
CONSTANTS Alpha, Max
VARIABLES p, q
Short(s) == Len(s) <= Max
Init == p = <<>> /\ q = <<>>
Next == \/ Len(p) < Max /\ \E c \in Alpha : p' = Append(p, c) /\ UNCHANGED q
        \/ Len(q) < Max - 2 /\ \E c \in Alpha : q' = Append(q, c) /\ UNCHANGED p
Spec == Init /\ [][Next]_<<p, q>>
N == Norm(p)
Idempotent == Norm(N) = N
SameKind == IsAbs(N) = IsAbs(p) /\ (N = <<>> <=> p = <<>>)
NoTail == Len(N) > 1 => N[Len(N)] \notin {SL, BS}
\* shortest form: no component could be removed
Shortest == LET c == Components(N) IN
  /\ \A i \in 1..Len(c) : c[i] # Dot \/ N = Dot
  /\ \A i \in 1..Len(c) : c[i] = DotDot => ~IsAbs(p) /\ \A j \in 1..i : c[j] = DotDot
  /\ N = (IF IsAbs(N) THEN <<SL>> ELSE <<>>) \o Glue(c)
NotLonger == Len(N) <= Len(p)
J == Join(<<p, q>>)
JA == JoinAbs(<<p, q>>)
JoinNormal == Norm(J) = J /\ Norm(JA) = JA
JoinKind == p # <<>> => IsAbs(J) = IsAbs(p)
JoinRespect == IsAbs(q) => JA = Norm(q)
\* elements that normalize to plain names appear in order
JoinPlain == (p # <<>> /\ q # <<>> /\ ~IsAbs(q) /\ \A i \in 1..Len(Components(q)) : Components(q)[i] \notin {Dot, DotDot} )
             => J = JA
JoinUnit == /\ Join(<<p>>) = N /\ Join(<<<<>>, p>>) = N /\ JoinAbs(<<<<>>, p>>) = N
Inv == Idempotent /\ SameKind /\ NoTail /\ Shortest /\ NotLonger /\ JoinNormal /\ JoinKind /\ JoinRespect /\ JoinPlain /\ JoinUnit
=============================================================================
