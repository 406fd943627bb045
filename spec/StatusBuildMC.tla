---------------------------- MODULE StatusBuildMC ----------------------------
(* All histories of a builder (and one it is moved to) over small texts.     *)
EXTENDS StatusBuild
CONSTANTS MaxSteps
VARIABLES b, hist, n
\* b: two builders, hist: per builder the texts it was given, with the mode at that time
vars == <<b, hist, n>>
Statuses == {OkStatus, [code |-> 1, msg |-> <<>>, pays |-> {}], [code |-> 2, msg |-> <<101>>, pays |-> {<<1, 1>>}]}
Texts == {<<>>, <<97>>, <<98, 99>>}
None == [st |-> OkStatus, texts |-> <<>>]
Init == n = 0 /\ hist = [i \in 1..2 |-> None] /\ b = [i \in 1..2 |-> OkBuilder]
Step == n < MaxSteps /\ n' = n + 1
Make(i, s) == Step /\ b' = [b EXCEPT ![i] = Made(s)] /\ hist' = [hist EXCEPT ![i] = [st |-> s, texts |-> <<>>]]
Text(i, t) == Step /\ b' = [b EXCEPT ![i] = Written(@, t)] /\ hist' = [hist EXCEPT ![i].texts = Append(@, <<b[i].mode = 2, Padded(t, b[i].fmt)>>)]
Width(i) == Step /\ b' = [b EXCEPT ![i] = Formatted(@, "width", 3)] /\ UNCHANGED hist
Pre(i) == Step /\ b' = [b EXCEPT ![i] = Prepending(@)] /\ UNCHANGED hist
App(i) == Step /\ b' = [b EXCEPT ![i] = Appending(@)] /\ UNCHANGED hist
Pay(i, u, c) == Step /\ b' = [b EXCEPT ![i] = Paying(@, u, c)] /\ UNCHANGED hist
Move(i, j) == Step /\ i # j /\ b' = [b EXCEPT ![j] = b[i], ![i] = OkBuilder] /\ hist' = [hist EXCEPT ![j] = hist[i], ![i] = None]
Next == \E i \in 1..2 : \/ \E s \in Statuses : Make(i, s)
                        \/ \E t \in Texts : Text(i, t)
                        \/ Width(i) \/ Pre(i) \/ App(i)
                        \/ \E u \in 1..2, c \in 1..2 : Pay(i, u, c)
                        \/ \E j \in 1..2 : Move(i, j)
Spec == Init /\ [][Next]_vars

Texted(i, after) == FlattenSeq([k \in 1..Len(hist[i].texts) |-> IF hist[i].texts[k][1] = after THEN hist[i].texts[k][2] ELSE <<>>])
\* Ok stays ok, and an error stays that error.
KeepsCode == \A i \in 1..2 : Built(b[i]).code = hist[i].st.code
OkIsOk == \A i \in 1..2 : IsOk(b[i]) => Built(b[i]) = OkStatus /\ b[i] = OkBuilder
\* The message is the original with the texts around it, in order and nothing else.
Around == \A i \in 1..2 : ~IsOk(b[i]) =>
            LET m == Built(b[i]).msg IN
            \/ m = Texted(i, FALSE) \o hist[i].st.msg \o Texted(i, TRUE)
            \/ b[i].mode = 0 /\ m = hist[i].st.msg \o Texted(i, FALSE)
\* Payloads are never lost, and there is one per url.
KeepsPays == \A i \in 1..2 : LET p == Built(b[i]).pays IN
               /\ \A q \in hist[i].st.pays : \E r \in p : r[1] = q[1]
               /\ \A q, r \in p : q[1] = r[1] => q = r
=============================================================================
