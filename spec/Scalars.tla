------------------------------ MODULE Scalars ------------------------------
(***************************************************************************)
(* The order of arithmetic values.  A value is <<kind, sign, e, l0..l3>>:  *)
(* kind 0 finite, 1 infinite, 2 NaN; a finite non-zero value is            *)
(* sign * m * 2^(e-64) with the 64-bit m = l3 l2 l1 l0 having its top bit  *)
(* set, so that magnitudes compare by e and then by m.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
IsNaN(v) == v[1] = 2
\* the first differing position of <<e, l3, l2, l1, l0>> decides
CmpMag(a, b) == IF a[3] # b[3] THEN Sgn(a[3] - b[3]) ELSE IF a[7] # b[7] THEN Sgn(a[7] - b[7])
                ELSE IF a[6] # b[6] THEN Sgn(a[6] - b[6]) ELSE IF a[5] # b[5] THEN Sgn(a[5] - b[5])
                ELSE Sgn(a[4] - b[4])
\* -inf < finite < inf < NaN
Rank(v) == CASE v[1] = 2 -> 2 [] v[1] = 1 -> v[2] [] OTHER -> 0
Cmp(a, b) == IF Rank(a) # Rank(b) THEN Sgn(Rank(a) - Rank(b))
             ELSE IF Rank(a) # 0 THEN 0
             ELSE IF a[2] # b[2] THEN Sgn(a[2] - b[2])
             ELSE IF a[2] = 0 THEN 0 ELSE a[2] * CmpMag(a, b)
Truth(v) == IF v[1] = 0 /\ v[2] = 0 THEN 0 ELSE 1
\* between bool and another integral type truth values are compared
CmpTyped(lt, rt, a, b) == IF (lt = "bool") # (rt = "bool") /\ ~(lt = "float" \/ rt = "float") THEN Sgn(Truth(a) - Truth(b))
                          ELSE Cmp(a, b)
\* the transparent less-than: IEEE for floating point, NaN unordered
Less(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ Cmp(a, b) < 0
\* byte strings, lexicographically
RECURSIVE CmpBytesFrom(_, _, _)
CmpBytesFrom(a, b, i) == IF i > Len(a) \/ i > Len(b) THEN Sgn(Len(a) - Len(b))
                         ELSE IF a[i] # b[i] THEN Sgn(a[i] - b[i]) ELSE CmpBytesFrom(a, b, i + 1)
CmpBytes(a, b) == CmpBytesFrom(a, b, 1)
=============================================================================
