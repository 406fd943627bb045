--------------------------- MODULE VariantTrace ---------------------------
(* Overload selection by held alternative, and tests for variant types. *)
EXTENDS TraceBase, FiniteSets
\* cat: how the variant is passed (0 modifiable, 1 constant, 2 temporary); set: forms of overload
\* there are for the held alternative (1 modifiable reference, 2 constant reference, 3 temporary).
\* The last overload, 0, takes anything.
Chosen(cat, forms) ==
  CASE cat = 0 -> IF 1 \in forms THEN 1 ELSE IF 2 \in forms THEN 2 ELSE 0
    [] cat = 1 -> IF 2 \in forms THEN 2 ELSE 0
    [] cat = 2 -> IF 3 \in forms THEN 3 ELSE IF 2 \in forms THEN 2 ELSE 0
\* overloads: sequence of <<alternative, form>>; a called overload answers <<alternative, form, value>>
\* and there is exactly one call
FormsOf(ovs, alt) == {ovs[j][2] : j \in {k \in 1..Len(ovs) : ovs[k][1] = alt}}
Answer(r) == LET f == Chosen(r.cat, FormsOf(r.overloads, r.held)) IN IF f = 0 THEN <<-1, 0, r.value>> ELSE <<r.held, f, r.value>>
\* types as terms: name, and for variants the alternatives
IsVariantTerm(t) == t.k = "variant"
Member(v, t) == \E i \in 1..Len(v.args) : v.args[i] = t
CallOk(r) ==
  CASE r.op = "visit" -> r.calls = 1 /\ r.got = Answer(r)
    \* two variants at once: one overload for each listed pair, else the one taking anything
    [] r.op = "visit2" -> r.calls = 1 /\ r.got = IF \E j \in 1..Len(r.pairs) : r.pairs[j] = r.held THEN r.held ELSE <<-1, -1>>
    [] r.op = "isvariant" -> r.b = IsVariantTerm(r.t)
    [] r.op = "member" -> r.b = Member(r.v, r.t)
    [] OTHER -> FALSE
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Accept(CallOk(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
