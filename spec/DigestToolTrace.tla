--------------------------- MODULE DigestToolTrace ---------------------------
(* Runs of the real tool, and calls of the line parser, against DigestTool. *)
EXTENDS TraceBase, FiniteSets
VARIABLES files, table, made, madeWith, atMade, report
D == INSTANCE DigestTool WITH Names <- {}, Contents <- {}, Algs <- {}, MCTable <- <<>>
S == INSTANCE Digests
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.op = e /\ l' = l + 1
rest == <<made, madeWith, atMade, report>>
TraceInit == l = 1 /\ files = <<>> /\ table = <<>> /\ made = <<>> /\ madeWith = <<>> /\ atMade = <<>> /\ report = <<>>
TReset == IsEvent("reset") /\ files' = <<>> /\ table' = <<>> /\ UNCHANGED rest
TSet == IsEvent("set") /\ D!SetNode(Ev.n, Ev.k)
Digits(b) == [i \in 1..(2 * Len(b)) |-> LET v == b[(i + 1) \div 2] d == IF i % 2 = 1 THEN v \div 16 ELSE v % 16 IN IF d < 10 THEN 48 + d ELSE 87 + d]
Real(alg, m) == TLCEval(Digits(CASE alg = "shake128" -> S!SHAKE128(m, 32) [] alg = "shake256" -> S!SHAKE256(m, 32) [] OTHER -> S!Digest(alg, m)))
\* a content in use: short ones by definition, long ones as computed by another implementation
TContent == /\ IsEvent("content") /\ UNCHANGED <<files, rest>>
            /\ table' = (<<Ev.alg, Ev.k>> :> TLCEval(IF Ev.big THEN Ev.hex ELSE Real(Ev.name, Ev.m))) @@ table
TGen == /\ IsEvent("gen") /\ UNCHANGED <<files, table, rest>>
        /\ LET r == D!GenRun(files, table, Ev.alg, Ev.names, Ev.stdin, [reverse |-> Ev.reverse, skipdirs |-> Ev.skipdirs]) IN
           Accept(Ev.out = r.out /\ Ev.code = r.code /\ (Ev.errlen > 0) = (r.code # 0))
\* sums: what each argument holds (kind 1: the text, 0: cannot be read)
TCheck == /\ IsEvent("check") /\ UNCHANGED <<files, table, rest>>
          /\ LET o == [quiet |-> Ev.quiet, status |-> Ev.status, ignore |-> Ev.ignore, strict |-> Ev.strict]
                 rs == [i \in 1..Len(Ev.sums) |-> D!CheckRun(files, table, Ev.alg, Ev.w, Ev.sums[i], o)]
                 RECURSIVE Sum(_, _)
                 Sum(x, i) == IF i > Len(rs) THEN 0 ELSE rs[i][x] + Sum(x, i + 1)
                 all == [verified |-> Sum("verified", 1), mismatched |-> Sum("mismatched", 1), unreadable |-> Sum("unreadable", 1), malformed |-> Sum("malformed", 1)] IN
             Accept(IF Ev.broken THEN Ev.code = 1
                    ELSE /\ Ev.out = D!Cat([i \in 1..Len(rs) |-> rs[i].out])
                         /\ Ev.code = D!ExitOf(all, o)
                         /\ (o.status => Ev.errlen = 0)
                         /\ (~o.status => Ev.warned = <<all.malformed, all.unreadable, all.mismatched>>))
\* calls that cannot work (no such algorithm, directory or argument): nothing is printed
TRefused == IsEvent("refused") /\ UNCHANGED <<files, table, rest>> /\ Accept(Ev.code # 0 /\ Ev.out = <<>> /\ Ev.errlen > 0)
\* the line parser; w = -1: more digits than any line has
LineOk(s, w, g) == IF w < 0 THEN ~g.ok ELSE LET p == D!ParseLine(s, w) IN g.ok = p.ok /\ (p.ok => g.hex = p.hex /\ g.name = p.name /\ g.within)
TLine == IsEvent("line") /\ UNCHANGED <<files, table, rest>> /\ Accept(\A i \in 1..Len(Ev.ws) : LineOk(Ev.s, Ev.ws[i], Ev.got[i]))
TraceNext == TReset \/ TSet \/ TContent \/ TGen \/ TCheck \/ TRefused \/ TLine
TraceSpec == TraceInit /\ [][TraceNext]_<<l, files, table, rest>>
=============================================================================
