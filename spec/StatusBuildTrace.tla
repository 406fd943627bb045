--------------------------- MODULE StatusBuildTrace ---------------------------
(* Recorded histories of real builders, and of real functions passing on     *)
(* statuses with the macros, replayed on StatusBuild.                        *)
EXTENDS TraceBase, StatusBuild
VARIABLES b
Ev == Trace[l]
tvars == <<l, b>>
IsEvent(e) == l <= Len(Trace) /\ Ev.op = e /\ l' = l + 1
Bs == 1..3
TraceInit == l = 1 /\ b = [i \in Bs |-> OkBuilder]
Pays(s) == {<<s[i][1], s[i][2]>> : i \in 1..Len(s)}
St(s) == [code |-> s.code, msg |-> s.msg, pays |-> Pays(s.pays)]
\* a status as answered: what an ok status carries is nothing, and no url comes twice
Same(s, want) == St(s) = want /\ Len(s.pays) = Cardinality(want.pays)
Oks == Len(Ev.oks) = 3 /\ \A i \in Bs : Ev.oks[i] = IsOk(b'[i])
TReset == IsEvent("reset") /\ b' = [i \in Bs |-> OkBuilder]
TMake == IsEvent("make") /\ b' = [b EXCEPT ![Ev.i] = Made(St(Ev.st))] /\ Accept(Oks /\ Same(Ev.left, IF Ev.taken /\ Ev.st.code # 0 THEN St(Ev.left) ELSE St(Ev.st)))
TText == IsEvent("text") /\ b' = [b EXCEPT ![Ev.i] = Written(@, Ev.text)] /\ Accept(Oks)
TNum == IsEvent("num") /\ b' = [b EXCEPT ![Ev.i] = WrittenNum(@, Ev.v)] /\ Accept(Oks)
TForm == IsEvent("form") /\ b' = [b EXCEPT ![Ev.i] = Formatted(@, Ev.what, Ev.v)] /\ Accept(Oks)
TPre == IsEvent("prepend") /\ b' = [b EXCEPT ![Ev.i] = Prepending(@)] /\ Accept(Oks)
TApp == IsEvent("append") /\ b' = [b EXCEPT ![Ev.i] = Appending(@)] /\ Accept(Oks)
\* text that cannot be written spoils nothing of what is there
TSpoil == IsEvent("spoil") /\ b' = [b EXCEPT ![Ev.i] = IF Ev.mode = 2 THEN Appending(@) ELSE @] /\ Accept(Oks)
TPay == IsEvent("pay") /\ b' = [b EXCEPT ![Ev.i] = Paying(@, Ev.url, Ev.c)] /\ Accept(Oks)
TMove == IsEvent("move") /\ b' = [b EXCEPT ![Ev.to] = b[Ev.i], ![Ev.i] = OkBuilder] /\ Accept(Oks)
TGet == IsEvent("get") /\ UNCHANGED b /\ Accept(Oks /\ \A k \in 1..Len(Ev.sts) : Same(Ev.sts[k], Built(b[Ev.i])))
\* conversions of statuses of any kind to a status
TConv == IsEvent("conv") /\ UNCHANGED b /\ Accept(\A k \in 1..Len(Ev.sts) : Same(Ev.sts[k], St(Ev.st)))
RECURSIVE Prog(_)
Prog(s) == [i \in 1..Len(s) |-> [leaf |-> s[i].leaf, id |-> s[i].id, st |-> St(s[i].st), value |-> s[i].value, takes |-> s[i].takes,
                                 how |-> s[i].how, pre |-> s[i].pre, suf |-> s[i].suf, steps |-> Prog(s[i].steps)]]
TRun == IsEvent("run") /\ UNCHANGED b
        /\ Accept(LET r == RunAll(Prog(Ev.steps)) IN
                  Same(Ev.st, r.st) /\ Ev.log = r.log /\ (r.st.code = 0 => Ev.sum = r.sum) /\ Ev.live = 0)
Ops == {"reset", "make", "text", "num", "form", "prepend", "append", "spoil", "pay", "move", "get", "conv", "run"}
TOther == l <= Len(Trace) /\ Ev.op \notin Ops /\ l' = l + 1 /\ UNCHANGED b /\ Accept(FALSE)
TraceNext == TReset \/ TMake \/ TText \/ TNum \/ TForm \/ TPre \/ TApp \/ TSpoil \/ TPay \/ TMove \/ TGet \/ TConv \/ TRun \/ TOther
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
