-------------------------------- MODULE Ini --------------------------------
(* INI content: a set of entries <<group, key, value>> (byte sequences), at *)
(* most one per group and key.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Texts, Names
VARIABLES data, last   \* last: the entry set most recently (or <<>>)
vars == <<data, last>>
Space(c) == c = 32 \/ (c >= 9 /\ c <= 13)
RECURSIVE StripL(_)
StripL(s) == IF s # <<>> /\ Space(Head(s)) THEN StripL(Tail(s)) ELSE s
RECURSIVE StripR(_)
StripR(s) == IF s # <<>> /\ Space(s[Len(s)]) THEN StripR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s) == StripR(StripL(s))
Put(d, g, k, v) == {e \in d : e[1] # g \/ e[2] # k} \cup {<<g, k, v>>}
Has(d, g, k) == \E e \in d : e[1] = g /\ e[2] = k
Get(d, g, k) == (CHOOSE e \in d : e[1] = g /\ e[2] = k)[3]
Groups(d) == {e[1] : e \in d}
RECURSIVE IndexOf(_, _, _)
IndexOf(s, c, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = c THEN i ELSE IndexOf(s, c, i + 1)
\* st: entries so far and the current group
Line(st, raw) ==
  LET s == Strip(raw) n == Len(s) q == IndexOf(s, 61, 1) IN
  IF n = 0 \/ s[1] = 59 \/ s[1] = 35 THEN st
  ELSE IF s[1] = 91 /\ s[n] = 93 THEN [st EXCEPT !.g = SubSeq(s, 2, n - 1)]
  ELSE [st EXCEPT !.d = Put(st.d, Strip(st.g), IF q = 0 THEN s ELSE Strip(SubSeq(s, 1, q - 1)),
                            IF q = 0 THEN <<>> ELSE Strip(SubSeq(s, q + 1, n)))]
RECURSIVE Lines(_, _)
Lines(st, t) == LET e == IndexOf(t, 10, 1) IN
                IF e = 0 THEN Line(st, t) ELSE Lines(Line(st, SubSeq(t, 1, e - 1)), SubSeq(t, e + 1, Len(t)))
Parse(t) == Lines([d |-> {}, g |-> <<>>], t).d
\* can be expressed as text
Plain(s) == IndexOf(s, 10, 1) = 0 /\ Strip(s) = s
Expressible(e) ==
  LET g == e[1] k == e[2] v == e[3] w == Strip(k \o <<61>> \o v) IN
  /\ Plain(k) /\ Plain(v) /\ Plain(g) /\ IndexOf(k, 61, 1) = 0
  /\ w[1] \notin {59, 35} /\ ~(w[1] = 91 /\ w[Len(w)] = 93)
RECURSIVE Render(_)
Render(es) == IF es = <<>> THEN <<>>
              ELSE LET e == Head(es) IN <<91>> \o e[1] \o <<93, 10>> \o e[2] \o <<61>> \o e[3] \o <<10>> \o Render(Tail(es))
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
\* actions
Load(t) == data' = Parse(t) /\ last' = <<>>
Set(g, k, v) == data' = Put(data, Strip(g), Strip(k), v) /\ last' = <<Strip(g), Strip(k), v>>
Init == data = {} /\ last = <<>>
Next == \/ data = {} /\ last = <<>> /\ \E t \in Texts : Load(t)
        \/ \E g, k, v \in Names : (Cardinality(data) < 2 /\ Set(g, k, v))
Spec == Init /\ [][Next]_vars
\* promises
OnePerKey == \A a, b \in data : a[1] = b[1] /\ a[2] = b[2] => a = b
LastWins == last # <<>> => Has(data, last[1], last[2]) /\ Get(data, last[1], last[2]) = last[3]
RoundTrip == (\A e \in data : Expressible(e)) => Parse(Render(SeqOf(data))) = data
Clean == \A e \in data : Strip(e[1]) = e[1] /\ Strip(e[2]) = e[2]
Others == [][last' # <<>> => \A e \in data : (e[1] # last'[1] \/ e[2] # last'[2]) => e \in data']_vars
=============================================================================
