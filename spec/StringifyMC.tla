------------------------------ MODULE StringifyMC ------------------------------
(* The texts of all small values: JSON formats are valid JSON which denotes   *)
(* the value; every shown field appears once, in order, under its own key.    *)
EXTENDS Stringify
CONSTANTS Depth
J == INSTANCE JsonText
VARIABLES v, mode
vars == <<v, mode>>
V(t, b, c) == [t |-> t, b |-> b, c |-> c, n |-> <<>>, nn |-> FALSE, ty |-> 0, q |-> 0, x |-> <<>>, sg |-> 0]
Leaves == {V("num", <<55>>, <<>>), V("str", <<34, 10>>, <<>>), V("chr", <<39>>, <<>>), V("null", <<>>, <<>>), V("nopt", <<>>, <<>>), V("dis", <<>>, <<>>), [V("flt", <<>>, <<>>) EXCEPT !.q = -3],
           V("flt", <<105, 110, 102>>, <<>>)}
Names == {<<>>, <<<<97>>>>, <<<<98>>, <<34>>>>}
Up(s) == {V(t, <<>>, <<x>>) : t \in {"smart", "opt", "var", "acc", "ref"}, x \in s}
         \cup {V(t, <<>>, <<x, y>>) : t \in {"pair", "seq"}, x \in s, y \in s} \cup {V("seq", <<>>, <<>>)}
         \cup {[V("map", <<>>, <<x, x>>) EXCEPT !.n = <<<<98>>, k>>] : x \in s, k \in {<<>>, <<97>>, <<98>>}}
         \cup {[V("struct", <<>>, <<x, y>>) EXCEPT !.n = n, !.nn = nn] : x \in s, y \in s, n \in Names, nn \in BOOLEAN}
         \cup {V("struct", <<>>, <<>>)}
Few == {V("num", <<55>>, <<>>), V("null", <<>>, <<>>), V("dis", <<>>, <<>>)} \cup Up({V("num", <<55>>, <<>>), V("nopt", <<>>, <<>>)})
Start == IF Depth = 1 THEN Up(Leaves) ELSE Up(Few)
Init == v \in {x \in Start : x.t \in {"struct", "map"}} /\ mode \in {"json", "jsonline", "jsonpretty"}
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* what a value means in JSON
Val(k) == [k |-> k, s |-> <<>>, c |-> <<>>, n |-> <<>>]
RECURSIVE Den(_, _)
Obj(n, c) == [Val("obj") EXCEPT !.n = n, !.c = c]
Fields(c) == SelectSeq([k \in 1..Len(c) |-> k], LAMBDA k : c[k].t \notin {"null", "nopt", "dis"})
Den(x, ordered) ==
  CASE x.t = "num" -> [Val("num") EXCEPT !.s = x.b]
    [] x.t = "flt" -> IF x.b # <<>> THEN Val("null") ELSE [Val("num") EXCEPT !.s = Quarters(x.q)]
    [] x.t \in {"str", "chr"} -> [Val("str") EXCEPT !.s = x.b]
    [] x.t \in {"null", "nopt", "dis"} -> Val("null")
    [] x.t \in {"smart", "opt", "var", "acc", "ref"} -> Den(x.c[1], ordered)
    [] x.t = "seq" -> [Val("arr") EXCEPT !.c = [k \in 1..Len(x.c) |-> Den(x.c[k], ordered)]]
    [] x.t = "map" -> LET o == IF ordered THEN InOrder(x.n) ELSE [k \in 1..Len(x.n) |-> k] IN Obj([k \in 1..Len(o) |-> x.n[o[k]]], [k \in 1..Len(o) |-> Den(x.c[o[k]], ordered)])
    [] x.t = "pair" -> LET f == Fields(x.c) IN Obj([k \in 1..Len(f) |-> IF f[k] = 1 THEN First ELSE Second], [k \in 1..Len(f) |-> Den(x.c[f[k]], ordered)])
    [] x.t = "struct" -> LET f == Fields(x.c) IN
                         Obj([k \in 1..Len(f) |-> LET n == IF x.nn THEN <<>> ELSE Pad(x.n, f[k]) IN IF n = <<>> THEN Nat10(f[k] - 1) ELSE n], [k \in 1..Len(f) |-> Den(x.c[f[k]], ordered)])
Root == [p |-> <<>>, s |-> <<>>, i |-> <<>>]
Written == Text(v, Mode(mode), <<>>, Root)
ValidJson == LET r == J!Parse(J!Lex(Written, 1, <<>>)) IN r.ok /\ r.v = Den(v, mode = "jsonpretty")
Laid == LET t == SubSeq(Written, 1, Len(Written) - 1) IN t = J!Layout(J!Lex(t, 1, <<>>), CASE mode = "json" -> "compact" [] mode = "jsonline" -> "line" [] OTHER -> "pretty", <<>>)
===============================================================================
