----------------------------- MODULE DigestTool -----------------------------
(* The checksum tool and the files it is used on.  Contents are numbers     *)
(* (> 0); table gives the digits of each content under each algorithm.      *)
EXTENDS Checksums, FiniteSets, TLC
CONSTANTS Names, Contents, Algs, MCTable
VARIABLES files, table, made, madeWith, atMade, report
vars == <<files, table, made, madeWith, atMade, report>>
Missing == 0
Directory == -1
NodeOf(f, n) == IF n \in DOMAIN f THEN f[n] ELSE Missing
Text(t) == t \o <<10>>
Cat(ss) == LET RECURSIVE C(_) C(i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o C(i + 1) IN C(1)
\* ---- printing digests; stdin: a content, read by the name "-"
GenOne(f, t, alg, n, stdin, o) ==
  LET k == IF n = <<45>> THEN stdin ELSE NodeOf(f, n) IN
  CASE k > 0 -> [out |-> Text(IF o.reverse THEN n \o <<32, 32>> \o t[<<alg, k>>] ELSE Line(t[<<alg, k>>], n)), bad |-> FALSE]
    [] k = Directory /\ o.skipdirs /\ n # <<45>> -> [out |-> <<>>, bad |-> FALSE]
    [] OTHER -> [out |-> <<>>, bad |-> TRUE]
GenRun(f, t, alg, names, stdin, o) ==
  LET rs == [i \in 1..Len(names) |-> GenOne(f, t, alg, names[i], stdin, o)] IN
  [out |-> Cat([i \in 1..Len(rs) |-> rs[i].out]), code |-> IF \E i \in 1..Len(rs) : rs[i].bad THEN 1 ELSE 0]
\* ---- verifying lines
Judge(f, t, alg, w, s) ==
  IF s = <<>> THEN [what |-> "empty", name |-> <<>>]
  ELSE LET p == ReadLine(s, w) IN
       IF ~p.ok THEN [what |-> "malformed", name |-> <<>>]
       ELSE LET k == NodeOf(f, p.name) IN
            [what |-> IF k <= 0 THEN "unreadable" ELSE IF Lower(p.hex) = t[<<alg, k>>] THEN "verified" ELSE "mismatched", name |-> p.name]
OKText == <<58, 32, 79, 75>>
FailedText == <<58, 32, 70, 65, 73, 76, 69, 68>>
UnreadText == FailedText \o <<32, 111, 112, 101, 110, 32, 111, 114, 32, 114, 101, 97, 100>>
Shown(n) == IF Breaks(n) THEN <<92>> \o Escape(n) ELSE n
Told(j, o) ==
  CASE o.status -> <<>>
    [] j.what = "verified" /\ ~o.quiet -> Text(Shown(j.name) \o OKText)
    [] j.what = "mismatched" -> Text(Shown(j.name) \o FailedText)
    [] j.what = "unreadable" /\ ~o.ignore -> Text(Shown(j.name) \o UnreadText)
    [] OTHER -> <<>>
CheckRun(f, t, alg, w, text, o) ==
  LET ls == Lines(text)
      js == [i \in 1..Len(ls) |-> Judge(f, t, alg, w, ls[i])]
      N(x) == Cardinality({i \in 1..Len(js) : js[i].what = x}) IN
  [out |-> Cat([i \in 1..Len(js) |-> Told(js[i], o)]), js |-> js, verified |-> N("verified"), mismatched |-> N("mismatched"),
   unreadable |-> IF o.ignore THEN 0 ELSE N("unreadable"), malformed |-> N("malformed")]
ExitOf(r, o) ==
  IF \/ r.mismatched > 0 \/ r.unreadable > 0 \/ (o.strict /\ r.malformed > 0)
     \/ (o.ignore /\ r.verified = 0 /\ r.mismatched = 0) THEN 1 ELSE 0
\* ---- histories
Put(n, k) == files' = (n :> k) @@ files
SetNode(n, k) == Put(n, k) /\ UNCHANGED <<table, made, madeWith, atMade, report>>
Generate(alg, names) ==
  /\ made' = GenRun(files, table, alg, names, Missing, [reverse |-> FALSE, skipdirs |-> FALSE]).out
  /\ madeWith' = <<alg, names>> /\ atMade' = files /\ UNCHANGED <<files, table, report>>
Verify(alg, o) ==
  LET r == CheckRun(files, table, alg, Len(table[<<alg, 1>>]), made, o) IN
  report' = <<alg, o, r, ExitOf(r, o)>> /\ UNCHANGED <<files, table, made, madeWith, atMade>>
Flags == {[quiet |-> q, status |-> s, ignore |-> i, strict |-> t] : q \in {FALSE}, s \in BOOLEAN, i \in BOOLEAN, t \in BOOLEAN}
Init == files = <<>> /\ table = MCTable /\ made = <<>> /\ madeWith = <<>> /\ atMade = <<>> /\ report = <<>>
Next == \/ \E n \in Names : \E k \in Contents \cup {0, -1} : report = <<>> /\ NodeOf(files, n) # k /\ SetNode(n, k)
        \/ \E a \in Algs : \E ns \in [1..2 -> Names] : madeWith = <<>> /\ Generate(a, ns)
        \/ \E a \in Algs : \E o \in Flags : madeWith # <<>> /\ report = <<>> /\ Verify(a, o)
Spec == Init /\ [][Next]_vars
\* ---- promises
Readable(f, ns) == {i \in 1..Len(ns) : NodeOf(f, ns[i]) > 0}
RoundTrip == report # <<>> /\ report[1] = madeWith[1] =>
  LET ns == madeWith[2] r == report[3] L == Readable(atMade, ns) IN
  /\ Len(r.js) = Cardinality(L) /\ r.malformed = 0
  /\ r.verified = Cardinality({i \in L : NodeOf(files, ns[i]) = NodeOf(atMade, ns[i])})
  /\ (\A i \in L : NodeOf(files, ns[i]) = NodeOf(atMade, ns[i])) /\ L # {} => report[4] = 0
  /\ (\E i \in L : NodeOf(files, ns[i]) > 0 /\ NodeOf(files, ns[i]) # NodeOf(atMade, ns[i])) => report[4] = 1
OtherAlgorithm == report # <<>> /\ report[1] # madeWith[1] => report[3].verified = 0
StatusIsSilent == report # <<>> /\ report[2].status => report[3].out = <<>>
StrictIsStricter == report # <<>> => (ExitOf(report[3], report[2]) = 0 \/ ExitOf(report[3], [report[2] EXCEPT !.strict = TRUE]) = 1)
=============================================================================
