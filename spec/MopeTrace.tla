------------------------------ MODULE MopeTrace ------------------------------
(* Recorded histories of real templates: edits of dictionaries (which stay    *)
(* where they are), copies, INI files read, texts expanded.                   *)
EXTENDS TraceBase, Mope
VARIABLE nodes
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.op = e /\ l' = l + 1
Same == UNCHANGED nodes
Known(id) == id \in 1..Len(nodes)
Item(id) == [id |-> id, t |-> <<>>]
TraceInit == l = 1 /\ nodes = <<<<>>>>
TReset == IsEvent("reset") /\ nodes' = <<<<>>>>
TSet == /\ IsEvent("set")
        /\ IF ~Known(Ev.id) THEN Same /\ Accept(FALSE)
           ELSE LET code == SetCode(nodes[Ev.id], Ev.n, Ev.upd) IN
                /\ nodes' = (IF code = OkC THEN [nodes EXCEPT ![Ev.id] = SetTo(@, Ev.n, Ev.v)] ELSE nodes)
                /\ Accept(Ev.code = code)
TAdd == /\ IsEvent("add")
        /\ IF ~Known(Ev.id) THEN Same /\ Accept(FALSE)
           ELSE LET code == AddCode(nodes[Ev.id], Ev.n) IN
                /\ nodes' = (IF code = OkC THEN Append([nodes EXCEPT ![Ev.id] = AddTo(@, Ev.n, Item(Len(nodes) + 1))], <<>>) ELSE nodes)
                /\ Accept(Ev.code = code)
TCopy == /\ IsEvent("copy")
         /\ IF ~Known(Ev.id) THEN Same /\ Accept(FALSE)
            ELSE nodes' = Append(nodes, Tree(nodes, nodes[Ev.id])) /\ Accept(TRUE)
RECURSIVE Given(_, _)
\* the context of an expansion: <<code, context>>
Given(c, ctx) == IF c = <<>> THEN <<OkC, ctx>>
                 ELSE IF ~ValidName(c[1][1]) THEN <<Invalid, ctx>>
                 ELSE IF At(ctx, c[1][1]) > 0 THEN <<Exists, ctx>>
                 ELSE Given(Tail(c), Put(ctx, c[1][1], "s", c[1][2]))
TExpand == /\ IsEvent("expand") /\ Same
           /\ IF ~Known(Ev.id) THEN Accept(FALSE)
              ELSE LET g == Given(Ev.ctx, <<>>)
                       r == IF g[1] # OkC THEN Result(g[1], <<>>, <<>>) ELSE Expand(Tree(nodes, nodes[Ev.id]), g[2], Ev.text) IN
                   Accept(Ev.code = r.code /\ (r.code = OkC => Ev.out = r.out) /\ (Ev.again => Ev.code = OkC))
TName == IsEvent("name") /\ Same /\ Accept(Ev.valid = ValidName(Ev.n))
TIni == /\ IsEvent("ini")
        /\ LET r == FromGroups(Ev.gs, nodes[1]) IN nodes' = r.nodes /\ Accept(Ev.code = r.code)
TOther == l <= Len(Trace) /\ Ev.op \notin {"reset", "set", "add", "copy", "expand", "name", "ini"} /\ l' = l + 1 /\ Same /\ Accept(FALSE)
TraceNext == TReset \/ TSet \/ TAdd \/ TCopy \/ TExpand \/ TName \/ TIni \/ TOther
TraceSpec == TraceInit /\ [][TraceNext]_<<l, nodes>>
=============================================================================
