----------------------------- MODULE LogScopes -----------------------------
(***************************************************************************)
(* Scoped log streams.  A scope collects what is streamed into it and says *)
(* nothing; when it ends its one line goes to its sink: location, function *)
(* and, unless empty, message and content.  A scope that quits ends the    *)
(* program after its line, and nothing that is still open says anything.   *)
(* A scope: sink (0: none), prefix (location and function), msg (bytes),   *)
(* keeps (whether content is kept), quits, body (bytes), hex (whether      *)
(* whole numbers are now written in base 16).                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NSink, MaxLen
VARIABLES open, out, ended, closed
vars == <<open, out, ended, closed>>
Flat(ss) == LET F[i \in 0..Len(ss)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o ss[i] IN F[Len(ss)]
Digit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
RECURSIVE Num(_, _)
Num(n, b) == IF n < b THEN <<Digit(n)>> ELSE Append(Num(n \div b, b), Digit(n % b))
Dec(n) == IF n < 0 THEN <<45>> \o Num(-n, 10) ELSE Num(n, 10)
\* parts: t = "s" text b, "n" number v, "x"/"d" from here on numbers in base 16/10
RECURSIVE Put(_, _)
Put(sc, parts) ==
  IF parts = <<>> THEN sc
  ELSE LET p == Head(parts)
           s == CASE p.t = "s" -> [sc EXCEPT !.body = @ \o p.b]
                  [] p.t = "n" -> [sc EXCEPT !.body = @ \o IF sc.hex THEN Num(p.v, 16) ELSE Dec(p.v)]
                  [] p.t = "x" -> [sc EXCEPT !.hex = TRUE]
                  [] p.t = "d" -> [sc EXCEPT !.hex = FALSE]
       IN Put(s, Tail(parts))
Sep == <<32, 58, 32>>
Prefix(file, line, func) == <<91>> \o file \o <<58>> \o Dec(line) \o <<93, 32, 64>> \o func
Line(sc) == IF sc.sink = 0 THEN <<>>
            ELSE sc.prefix \o (IF sc.msg = <<>> THEN <<>> ELSE Sep \o sc.msg)
                 \o (IF sc.body = <<>> \/ ~sc.keeps THEN <<>> ELSE Sep \o sc.body) \o <<10>>
Scope(sink, prefix, msg, keeps, quits) ==
  [sink |-> sink, prefix |-> prefix, msg |-> msg, keeps |-> keeps, quits |-> quits, body |-> <<>>, hex |-> FALSE]
\* scopes are named; open maps the names of the open scopes to scopes
Init == open = <<>> /\ out = [s \in 1..NSink |-> <<>>] /\ ended = FALSE /\ closed = <<>>
Open(id, sc) == ~ended /\ id \notin DOMAIN open /\ open' = [i \in DOMAIN open \cup {id} |-> IF i = id THEN sc ELSE open[i]]
                /\ UNCHANGED <<out, ended, closed>>
Stream(id, parts) == ~ended /\ id \in DOMAIN open /\ open' = [open EXCEPT ![id] = Put(@, parts)] /\ UNCHANGED <<out, ended, closed>>
Close(id) == /\ ~ended /\ id \in DOMAIN open
             /\ LET sc == open[id] IN
                /\ out' = [s \in 1..NSink |-> IF s = sc.sink THEN out[s] \o Line(sc) ELSE out[s]]
                /\ ended' = sc.quits
                /\ closed' = Append(closed, sc)
             /\ open' = [i \in DOMAIN open \ {id} |-> open[i]]
Next == /\ Len(closed) < MaxLen
        /\ \/ \E id \in 1..2, sink \in 0..NSink, m \in {<<>>, <<7>>}, k, q \in BOOLEAN : Open(id, Scope(sink, <<>>, m, k, q))
           \/ \E id \in 1..2 : id \in DOMAIN open /\ Len(open[id].body) < 2 /\ Stream(id, <<[t |-> "s", b |-> <<id>>]>>)
           \/ \E id \in 1..2 : Close(id)
Spec == Init /\ [][Next]_vars
\* every sink has exactly the lines of the scopes that ended, in the order they ended, and nothing else
Once == \A s \in 1..NSink : out[s] = Flat([i \in 1..Len(closed) |-> IF closed[i].sink = s THEN Line(closed[i]) ELSE <<>>])
Newlines(b) == Cardinality({i \in 1..Len(b) : b[i] = 10})
OneLineEach == \A s \in 1..NSink : Newlines(out[s]) = Cardinality({i \in 1..Len(closed) : closed[i].sink = s})
EndsOnce == ended <=> \E i \in 1..Len(closed) : closed[i].quits /\ i = Len(closed)
=============================================================================
