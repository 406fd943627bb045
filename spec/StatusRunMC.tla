----------------------------- MODULE StatusRunMC -----------------------------
(* The chain of calls as a machine with a stack of levels: it ends with what *)
(* Run says, has called nothing after the first failure, and the status it   *)
(* answers with is the failing leaf's, extended once per level it passed.    *)
EXTENDS StatusBuild, TLC
CONSTANTS MaxLen
VARIABLES prog, stack, ret, log
vars == <<prog, stack, ret, log>>
Err == [code |-> 3, msg |-> <<101>>, pays |-> {<<1, <<7>>>>}]
Hows == {[how |-> 0, pre |-> <<>>, suf |-> <<>>], [how |-> 3, pre |-> <<97>>, suf |-> <<98>>], [how |-> 2, pre |-> <<99>>, suf |-> <<>>]}
Leaf(id, st, takes, h) == [leaf |-> TRUE, id |-> id, st |-> st, value |-> id, takes |-> takes, how |-> h.how, pre |-> h.pre, suf |-> h.suf, steps |-> <<>>]
Leaves(id) == {Leaf(id, st, tk, h) : st \in {OkStatus, Err}, tk \in BOOLEAN, h \in Hows}
Call(id, steps, h) == [leaf |-> FALSE, id |-> id, st |-> OkStatus, value |-> 0, takes |-> TRUE, how |-> h.how, pre |-> h.pre, suf |-> h.suf, steps |-> steps]
Inner == {<<>>} \cup {<<x>> : x \in Leaves(11)} \cup (IF MaxLen > 1 THEN {<<x, y>> : x \in Leaves(11), y \in Leaves(12)} ELSE {})
Progs == {<<Call(1, s, h)>> : s \in Inner, h \in Hows} \cup {<<Call(1, s, h), x>> : s \in Inner, h \in Hows, x \in Leaves(2)} \cup {<<x, Call(2, s, h)>> : s \in Inner, h \in Hows, x \in Leaves(1)}
NoRet == [on |-> FALSE, st |-> OkStatus, sum |-> 0]
Init == prog \in Progs /\ stack = <<[steps |-> prog, sum |-> 0]>> /\ ret = NoRet /\ log = <<>>
Top == stack[Len(stack)]
Below == SubSeq(stack, 1, Len(stack) - 1)
\* the step at the top gets its answer
Answer(st, sum) == IF st.code # 0 THEN /\ stack' = Below /\ ret' = [on |-> TRUE, st |-> Extended(st, Head(Top.steps)), sum |-> 0]
                   ELSE /\ stack' = Append(Below, [steps |-> Tail(Top.steps), sum |-> Top.sum + (IF Head(Top.steps).takes THEN sum ELSE 0)]) /\ ret' = NoRet
Next == /\ stack # <<>> /\ UNCHANGED prog
        /\ IF ret.on THEN Answer(ret.st, ret.sum) /\ UNCHANGED log
           ELSE IF Top.steps = <<>> THEN stack' = Below /\ ret' = [on |-> TRUE, st |-> OkStatus, sum |-> Top.sum] /\ UNCHANGED log
           ELSE LET x == Head(Top.steps) IN
                /\ log' = Append(log, x.id)
                /\ IF x.leaf THEN Answer(x.st, IF x.st.code = 0 THEN x.value ELSE 0)
                   ELSE stack' = Append(stack, [steps |-> x.steps, sum |-> 0]) /\ UNCHANGED ret
Spec == Init /\ [][Next]_vars
Done == stack = <<>>
Agrees == Done => LET r == RunAll(prog) IN r.st = ret.st /\ r.log = log /\ (ret.st.code = 0 => r.sum = ret.sum)
Keeps == Done /\ ret.st.code # 0 => ret.st.code = Err.code /\ ret.st.pays = Err.pays /\ \E i \in 1..Len(ret.st.msg) : ret.st.msg[i] = 101
=============================================================================
