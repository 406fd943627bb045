------------------------------- MODULE Paths -------------------------------
(* Lexical paths as byte sequences (POSIX): normal form and joining. *)
EXTENDS Integers, Sequences, TLC
SL == 47
BS == 92
Dot == <<46>>
DotDot == <<46, 46>>
IsAbs(p) == Len(p) > 0 /\ p[1] = SL
RECURSIVE Comps(_, _, _, _)
\* non-empty components of p between separators
Comps(p, i, cur, out) ==
  IF i > Len(p) THEN IF cur = <<>> THEN out ELSE Append(out, cur)
  ELSE IF p[i] = SL THEN Comps(p, i + 1, <<>>, IF cur = <<>> THEN out ELSE Append(out, cur))
  ELSE Comps(p, i + 1, Append(cur, p[i]), out)
Components(p) == Comps(p, 1, <<>>, <<>>)
RECURSIVE Resolve(_, _, _)
\* '.' stays, '..' leaves the component before it (nothing above the root)
Resolve(abs, cs, out) ==
  IF cs = <<>> THEN out
  ELSE LET c == Head(cs) n == Len(out) IN
       Resolve(abs, Tail(cs),
         IF c = Dot THEN out
         ELSE IF c # DotDot THEN Append(out, c)
         ELSE IF n > 0 /\ out[n] # DotDot THEN SubSeq(out, 1, n - 1)
         ELSE IF abs THEN out ELSE Append(out, c))
RECURSIVE Glue(_)
Glue(cs) == IF cs = <<>> THEN <<>> ELSE IF Len(cs) = 1 THEN cs[1] ELSE cs[1] \o <<SL>> \o Glue(Tail(cs))
Canon(p) == IF p = <<>> THEN <<>>
            ELSE LET g == Glue(Resolve(IsAbs(p), Components(p), <<>>)) IN
                 IF IsAbs(p) THEN <<SL>> \o g ELSE IF g = <<>> THEN Dot ELSE g
\* both kinds of separator are removed at the end
RECURSIVE Strip(_)
Strip(p) == IF Len(p) > 1 /\ p[Len(p)] \in {SL, BS} THEN Strip(SubSeq(p, 1, Len(p) - 1)) ELSE p
RECURSIVE Norm(_)
Norm(p) == LET r == Canon(Strip(p)) IN IF Len(r) > 1 /\ r[Len(r)] \in {SL, BS} THEN Norm(r) ELSE r
RECURSIVE Rel(_)
Rel(p) == IF IsAbs(p) THEN Rel(Tail(p)) ELSE p
\* one separator between the two, none if the left one brings it
Slash(a, b) == IF a[Len(a)] = SL THEN a \o b ELSE a \o <<SL>> \o b
\* Every element left of another is a directory the right part cannot become independent of:
\* absolute elements continue below it, and do not ascend beyond themselves.
RECURSIVE Join(_)
Join(ps) == IF Len(ps) = 1 THEN Norm(ps[1])
            ELSE IF ps[1] = <<>> THEN Join(Tail(ps))
            ELSE Norm(Slash(ps[1], Rel(Join(Tail(ps)))))
\* The last absolute element starts over.
RECURSIVE JoinAbs(_)
JoinAbs(ps) == IF Len(ps) = 1 THEN Norm(ps[1])
               ELSE LET r == JoinAbs(Tail(ps)) IN
                    IF ps[1] = <<>> \/ IsAbs(r) THEN r ELSE Norm(Slash(ps[1], r))
=============================================================================
