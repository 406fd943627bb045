----------------------------- MODULE JsonTrace -----------------------------
(* Recorded histories of edits, queries and comparisons of real documents.  *)
EXTENDS TraceBase, JsonDoc
VARIABLE docs
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.op = e /\ l' = l + 1
Known == Ev.d \in 1..Len(docs) /\ PathOk(docs[Ev.d], Ev.p)
Here == Part(docs[Ev.d], Ev.p)
TraceInit == l = 1 /\ docs = <<Null, Null, Null>>
TReset == IsEvent("reset") /\ docs' = <<Null, Null, Null>>
Observed == [i \in 1..Len(Ev.after) |-> Ordered(Ev.after[i])]
\* The documents are as they must be; what has been moved from is free to be anything.
Agree(want, free) == /\ Len(Ev.after) = Len(want)
                     /\ LET o == Observed IN
                        \A i \in 1..Len(want) :
                          IF free # <<>> /\ free[1] = i
                          THEN PathOk(o[i], free[2]) /\ want[i] = With(o[i], free[2], Part(want[i], free[2]))
                          ELSE want[i] = o[i]
Adopt(want, free) == IF free # <<>> /\ Agree(want, free) THEN Observed ELSE want
\* The value handed over, evaluated in the documents ds.
Given(ds) == IF Ev.t = "pointer" THEN Part(docs[Ev.s], Ev.sp)        \* a copy made before
             ELSE IF Ev.t \in {"copy", "lvalue", "move"} THEN Part(ds[Ev.s], Ev.sp)
             ELSE IF Ev.t = "bool" \/ Held(Ev.t) = "" THEN Ev.v ELSE [Ev.v EXCEPT !.r = Held(Ev.t)]
SourceOk(ds) == Ev.t \in {"copy", "lvalue", "move", "pointer"} => Ev.s \in 1..Len(ds) /\ PathOk((IF Ev.t = "pointer" THEN docs ELSE ds)[Ev.s], Ev.sp)
Put(ds, d, p, x) == [ds EXCEPT ![d] = With(@, p, x)]
\* The part moved from is still there unless it was within what has been replaced.
Free(target) == IF Ev.t = "move" /\ ~(Ev.s = Ev.d /\ IsPrefixOf(target, Ev.sp)) THEN <<Ev.s, Ev.sp>> ELSE <<>>
Edit(want, ok) == LET w == IF ok THEN want ELSE docs IN
                  docs' = w /\ Accept(Ev.threw = ~ok /\ Agree(w, <<>>))
Taking(want, target) == LET f == Free(target) IN
                        docs' = Adopt(want, f) /\ Accept(~Ev.threw /\ Agree(want, f))
Bad == UNCHANGED docs /\ Accept(FALSE)
Last(i) == [i |-> i, n |-> <<>>]
Name(n) == [i |-> 0, n |-> n]
TSet == /\ IsEvent("set")
        /\ IF ~Known THEN Bad
           ELSE IF ~SourceOk(docs) THEN Bad
           ELSE Taking(Put(docs, Ev.d, Ev.p, Given(docs)), Ev.p)
\* the member is there (as null) before the value is taken
TPut == /\ IsEvent("put")
        /\ IF ~Known THEN Bad
           ELSE IF ~CanBe(Here, 4) THEN Bad
           ELSE LET ds == Put(docs, Ev.d, Ev.p, Emplaced(Made(Here, 4, <<>>), Ev.n, Null))
                    t == Append(Ev.p, Name(Ev.n)) IN
                IF SourceOk(ds) THEN Taking(Put(ds, Ev.d, t, Given(ds)), t) ELSE Bad
TPush == /\ IsEvent("push")
         /\ IF ~Known THEN Bad
            ELSE IF ~CanBe(Here, 1) THEN Edit(docs, FALSE)
            ELSE LET ds == Put(docs, Ev.d, Ev.p, Made(Here, 1, <<>>)) IN
                 IF ~SourceOk(ds) THEN Bad
                 ELSE Taking(Put(ds, Ev.d, Ev.p, Pushed(Part(ds[Ev.d], Ev.p), Given(ds))), Append(Ev.p, Last(Len(Part(ds[Ev.d], Ev.p).c) + 1)))
\* What is taken by emplace but not needed, as the member is there, may be gone or not.
TEmplace == /\ IsEvent("emplace")
            /\ IF ~Known THEN Bad
               ELSE IF ~CanBe(Here, 4) THEN Edit(docs, FALSE)
               ELSE LET ds == Put(docs, Ev.d, Ev.p, Made(Here, 4, <<>>)) IN
                    IF ~SourceOk(ds) THEN Bad
                    ELSE Taking(Put(ds, Ev.d, Ev.p, Emplaced(Part(ds[Ev.d], Ev.p), Ev.n, Given(ds))), Append(Ev.p, Name(Ev.n)))
TMake == /\ IsEvent("make")
         /\ IF ~Known THEN Bad ELSE Edit(Put(docs, Ev.d, Ev.p, Made(Here, Ev.to, Ev.text)), CanBe(Here, Ev.to))
TResize == /\ IsEvent("resize")
           /\ IF ~Known THEN Bad ELSE Edit(Put(docs, Ev.d, Ev.p, Resized(Here, Ev.count, Given(docs))), Here.k = 1)
TSwap == /\ IsEvent("swap")
         /\ LET w == [docs EXCEPT ![Ev.d] = docs[Ev.s], ![Ev.s] = docs[Ev.d]] IN docs' = w /\ Accept(Agree(w, <<>>))
TGiven == IsEvent("given") /\ docs' = Observed /\ Accept(Agree(Observed, <<>>))
\* what cannot be done is refused and changes nothing
TRefused == IsEvent("refused") /\ UNCHANGED docs /\ Accept(Ev.threw = (Ev.what # "none") /\ Agree(docs, <<>>))
TPop == IsEvent("pop") /\ (IF ~Known THEN Bad ELSE IF Here.k # 1 \/ Here.c = <<>> THEN Bad ELSE Edit(Put(docs, Ev.d, Ev.p, Popped(Here)), TRUE))
TErase == /\ IsEvent("erase")
          /\ IF ~Known THEN Bad
             ELSE LET w == Put(docs, Ev.d, Ev.p, Erased(Here, Ev.n)) IN
                  docs' = w /\ Accept(~Ev.threw /\ Ev.count = (IF NameAt(Here, Ev.n) > 0 THEN 1 ELSE 0) /\ Agree(w, <<>>))
\* Positions of an object are those of its iteration order, which is reported.
IsOrder(v, o) == Len(o) = Len(v.n) /\ {o[i] : i \in 1..Len(o)} = {v.n[i] : i \in 1..Len(v.n)}
TCut == /\ IsEvent("cut")
        /\ IF ~Known THEN Bad
           ELSE IF ~IsContainer(Here) \/ Ev.to > Len(Here.c) THEN Bad
           ELSE IF Here.k = 4 /\ ~IsOrder(Here, Ev.order) THEN Bad
           ELSE LET w == Put(docs, Ev.d, Ev.p, IF Here.k = 1 THEN Cut(Here, Ev.from, Ev.to) ELSE ErasedAll(Here, SubSeq(Ev.order, Ev.from + 1, Ev.to))) IN
                docs' = w /\ Accept(~Ev.threw /\ Ev.at = Ev.from /\ Agree(w, <<>>))
TClear == IsEvent("clear") /\ (IF ~Known THEN Bad ELSE Edit(Put(docs, Ev.d, Ev.p, Cleared(Here)), TRUE))
TNull == IsEvent("reset_value") /\ (IF ~Known THEN Bad ELSE Edit(Put(docs, Ev.d, Ev.p, Null), TRUE))
\* ---------------------------------------------------------------- queries
Lists(v) == IF v.k = 1 THEN \A i \in 1..Len(Ev.lists) : Len(Ev.lists[i]) = Len(v.c) /\ \A j \in 1..Len(v.c) : Ordered(Ev.lists[i][j]) = v.c[j]
            ELSE IF v.k = 4 THEN IsOrder(v, Ev.names) /\ \A i \in 1..Len(Ev.lists) : Len(Ev.lists[i]) = Len(v.c)
                                                         /\ \A j \in 1..Len(v.c) : Ordered(Ev.lists[i][j]) = v.c[NameAt(v, Ev.names[j])]
            ELSE Ev.lists = <<>>
LookOk == LET v == Here IN
          /\ Ordered(Ev.v) = v /\ Ev.kind = v.k /\ Ev.size = SizeOf(v) /\ Ev.empty = (SizeOf(v) = 0)
          /\ Ev.is = [i \in 1..6 |-> v.k = i - 1]
          /\ Ev.yes = (v.k = 2 /\ v.q = 1) /\ Ev.no = (v.k = 2 /\ v.q = 0) /\ Ev.whole = (v.k = 3 /\ v.r # "d")
          /\ Ev.bool = (v.k # 0) /\ Ev.null = (v.k = 0)
          /\ \A i \in 1..Len(Ev.have) : NameAt(v, Ev.have[i]) > 0
          /\ v.k = 4 => \A i \in 1..Len(v.n) : \E j \in 1..Len(Ev.have) : Ev.have[j] = v.n[i]
          /\ Lists(v) /\ Ev.noise = 0
TLook == IsEvent("look") /\ UNCHANGED docs /\ Accept(IF Known THEN LookOk ELSE FALSE)
TCmp == /\ IsEvent("cmp") /\ UNCHANGED docs
        /\ Accept(IF Known /\ SourceOk(docs) THEN LET c == Cmp(Here, Given(docs)) IN Ev.ord = c /\ Ev.eq = (c = 0) /\ Ev.lt = (c < 0) ELSE FALSE)
Ops == {"reset", "set", "put", "push", "emplace", "make", "resize", "swap", "given", "refused", "pop", "erase", "cut", "clear", "reset_value", "look", "cmp"}
TOther == l <= Len(Trace) /\ Ev.op \notin Ops /\ l' = l + 1 /\ Bad
TraceNext == TReset \/ TSet \/ TPut \/ TPush \/ TEmplace \/ TMake \/ TResize \/ TSwap \/ TGiven \/ TRefused \/ TPop \/ TErase \/ TCut \/ TClear \/ TNull \/ TLook \/ TCmp \/ TOther
TraceSpec == TraceInit /\ [][TraceNext]_<<l, docs>>
=============================================================================
