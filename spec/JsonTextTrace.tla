--------------------------- MODULE JsonTextTrace ---------------------------
(* Serialized documents against what they must denote, and how they are laid out. *)
EXTENDS TraceBase, JsonText
Starts(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
Ends(t, p) == Len(t) >= Len(p) /\ SubSeq(t, Len(t) - Len(p) + 1, Len(t)) = p
\* A null as a whole document is written as an object without members.
Root(v) == IF v.k = "null" THEN [k |-> "obj", n |-> <<>>, c |-> <<>>] ELSE v
JsonOk(r) ==
  IF r.v.k \notin {"obj", "null"} THEN r.threw
  ELSE IF r.threw \/ r.noise # 0 \/ ~Starts(r.text, r.prefix) \/ ~Ends(r.text, <<10>> \o r.suffix) THEN FALSE
  ELSE IF Len(r.text) < Len(r.prefix) + Len(r.suffix) + 3 THEN FALSE
  ELSE LET body == SubSeq(r.text, Len(r.prefix) + 1, Len(r.text) - Len(r.suffix) - 1)
           ts == Lex(body, 1, <<>>)
           p == Parse(ts) IN
       IF ~p.ok THEN FALSE
       ELSE Same(p.v, Root(r.v)) /\ Layout(ts, r.mode, r.indent) = body /\ (r.mode = "pretty" => Sorted(p.v))
CallOk(r) == CASE r.op = "json" -> JsonOk(r) [] r.op = "reset" -> TRUE [] OTHER -> FALSE
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Accept(CallOk(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
