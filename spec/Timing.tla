------------------------------- MODULE Timing -------------------------------
(* Scopes that log how long they took (mbo::log::LogTiming).
   A scope is created with a severity, optionally an own minimal duration, a start time and a source location. When it
   ends it logs once, unless it took less than the minimal duration (its own, or the configured one) while its severity
   is below the one that is configured to be logged always; or unless the log drops its severity altogether.
   Moving a scope hands over its duty to log: a scope that was moved from never logs.
   Times are milliseconds, Inf stands for an infinite duration. Severities: 0 info, 1 warning, 2 error. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Ids, Ticks, MaxEnded     \* only of the checked model
VARIABLES now, minDur, minSev, logMin, open, logs, ended
vars == <<now, minDur, minSev, logMin, open, logs, ended>>
Inf == 2000000000
None == -2000000001
\* --- what is logged ---------------------------------------------------------
Digits3(n) == IF n % 1000 = 0 THEN ""
              ELSE LET d == n % 1000
                       t == (IF d < 10 THEN "00" ELSE IF d < 100 THEN "0" ELSE "") \o ToString(d)
                   IN "." \o (IF d % 100 = 0 THEN SubSeq(t, 1, 1) ELSE IF d % 10 = 0 THEN SubSeq(t, 1, 2) ELSE t)
Abs(n) == IF n < 0 THEN -n ELSE n
DurText(ms) ==
  LET a == Abs(ms)
      h == a \div 3600000
      m == (a \div 60000) % 60
      s == a % 60000
  IN IF ms = 0 THEN "0"
     ELSE (IF ms < 0 THEN "-" ELSE "") \o
          (IF a < 1000 THEN ToString(a) \o "ms"
           ELSE (IF h > 0 THEN ToString(h) \o "h" ELSE "") \o (IF m > 0 THEN ToString(m) \o "m" ELSE "")
                \o (IF s > 0 THEN ToString(s \div 1000) \o Digits3(s) \o "s" ELSE ""))
Message(sc, dur) == "LogTiming(" \o DurText(dur) \o " @ " \o sc.fn \o ")" \o (IF sc.msg = "" THEN "" ELSE ": " \o sc.msg)
Line(sc, dur) == [sev |-> sc.sev, file |-> sc.file, line |-> sc.line, msg |-> Message(sc, dur)]
Scope(sev, min, start, file, line, fn, msg) ==
  [sev |-> sev, min |-> min, start |-> start, file |-> file, line |-> line, fn |-> fn, msg |-> msg, live |-> TRUE]
Limit(sc) == IF sc.min = None THEN minDur ELSE sc.min
LongEnough(sc) == now - sc.start >= Limit(sc)
Logs(sc) == sc.live /\ (LongEnough(sc) \/ sc.sev >= minSev) /\ sc.sev >= logMin
\* --- what happens -----------------------------------------------------------
Init == now = 0 /\ minDur = 2000 /\ minSev = 2 /\ logMin = 0 /\ open = <<>> /\ logs = <<>> /\ ended = <<>>
Set(id, sc) == open' = [i \in DOMAIN open \cup {id} |-> IF i = id THEN sc ELSE open[i]]
Make(id, sc) == id \notin DOMAIN open /\ Set(id, sc) /\ UNCHANGED <<now, minDur, minSev, logMin, logs, ended>>
Stream(id, text) == /\ id \in DOMAIN open /\ Set(id, [open[id] EXCEPT !.msg = @ \o text])
                    /\ UNCHANGED <<now, minDur, minSev, logMin, logs, ended>>
\* nothing is said about the text a moved from scope is left with, it will not be logged
Move(id, to) == /\ id \in DOMAIN open /\ to \notin DOMAIN open
                /\ open' = [i \in DOMAIN open \cup {to} |-> IF i = to THEN open[id] ELSE IF i = id THEN [open[id] EXCEPT !.live = FALSE] ELSE open[i]]
                /\ UNCHANGED <<now, minDur, minSev, logMin, logs, ended>>
End(id) == /\ id \in DOMAIN open
           /\ logs' = IF Logs(open[id]) THEN Append(logs, Line(open[id], now - open[id].start)) ELSE logs
           /\ ended' = Append(ended, [sc |-> open[id], took |-> now - open[id].start, logged |-> Logs(open[id]), always |-> minSev, from |-> logMin])
           /\ open' = [i \in DOMAIN open \ {id} |-> open[i]]
           /\ UNCHANGED <<now, minDur, minSev, logMin>>
Clock(ms) == now' = now + ms /\ UNCHANGED <<minDur, minSev, logMin, open, logs, ended>>
SetMinDur(d) == minDur' = d /\ UNCHANGED <<now, minSev, logMin, open, logs, ended>>
SetMinSev(s) == minSev' = s /\ UNCHANGED <<now, minDur, logMin, open, logs, ended>>
SetLogMin(s) == logMin' = s /\ UNCHANGED <<now, minDur, minSev, open, logs, ended>>
\* a line number for each creation
Fresh == 1 + Cardinality({ended[i].sc.line : i \in 1..Len(ended)} \cup {open[i].line : i \in DOMAIN open})
\* --- the checked model: at most two scopes at a time, all of them named by how they were made -------------------------
Next == /\ Len(ended) < MaxEnded
        /\ \/ \E i \in Ids, s \in {0, 2}, d \in {None, 1, Inf} : Make(i, Scope(s, d, now, "f", Fresh, "g", ""))
           \/ \E i, j \in Ids : i # j /\ Move(i, j)
           \/ \E i \in Ids : i \in DOMAIN open /\ ended = <<>> /\ Len(open[i].msg) < 1 /\ Stream(i, "x")
           \/ \E i \in Ids : End(i)
           \/ now < Ticks /\ Clock(1)
           \/ ended = <<>> /\ minDur # 0 /\ SetMinDur(0)
           \/ ended = <<>> /\ minSev # 0 /\ SetMinSev(0)
           \/ ended = <<>> /\ logMin = 0 /\ SetLogMin(1)
Spec == Init /\ [][Next]_vars
\* every logged line is that of one ended scope, in the order they ended, and no scope has two
LoggedEnds == SelectSeq(ended, LAMBDA e : e.logged)
Once == Len(logs) = Len(LoggedEnds) /\ \A i \in 1..Len(logs) : logs[i] = Line(LoggedEnds[i].sc, LoggedEnds[i].took)
OnceEach == \A i, j \in 1..Len(logs) : i # j => logs[i].line # logs[j].line
HandedOver == \A i, j \in DOMAIN open : (i # j /\ open[i].line = open[j].line) => ~(open[i].live /\ open[j].live)
MovedNeverLogs == \A i \in 1..Len(ended) : ended[i].logged => ended[i].sc.live
\* all duration limits that are open ended or zero decide on their own
InfOnlyAlways == \A i \in 1..Len(ended) : (ended[i].logged /\ ended[i].sc.min = Inf) => ended[i].sc.sev >= ended[i].always
ZeroAlways == \A i \in 1..Len(ended) : (ended[i].sc.live /\ ended[i].sc.min = 0 /\ ended[i].sc.sev >= ended[i].from) => ended[i].logged
\* --- names --------------------------------------------------------------------
(* The text the compilers have for a function:
     [static|virtual ] return type [ ] [scope::]* name [template arguments] ( parameters ) [qualifiers] [lambdas...] [clause]
   The name shown is scope and name. Code in lambdas is named by its enclosing function, with its parameters, and ::[]()
   for each lambda. The parameters of a lambda that encloses another one are kept as well.
   Clang and GCC differ in how they write the lambdas, and GCC alone keeps the qualifiers of functions around lambdas. *)
RECURSIVE JoinAll(_, _)
JoinAll(parts, sep) == IF parts = <<>> THEN "" ELSE parts[1] \o (IF Len(parts) = 1 THEN "" ELSE sep) \o JoinAll(Tail(parts), sep)
Head0(f) == JoinAll(f.path \o <<f.name>>, "::")
ClangLambda(x) == "::(anonymous class)::operator()(" \o x.params \o ")"
GccLambda(x) == "::<lambda(" \o x.params \o ")>" \o x.quals
Text(f) ==
  f.pre \o f.ret \o f.gap \o Head0(f) \o f.targs \o "(" \o f.params \o ")"
  \o (IF f.lambdas = <<>> \/ f.form = "gcc" THEN f.quals ELSE "")
  \o (IF f.form = "gcc" THEN JoinAll([i \in 1..Len(f.lambdas) |-> GccLambda(f.lambdas[i])], "")
      ELSE JoinAll([i \in 1..Len(f.lambdas) |-> ClangLambda(f.lambdas[i]) \o (IF i = Len(f.lambdas) THEN f.lambdas[i].quals ELSE "")], ""))
  \o f.clause
Kept(x, last) == "::[]()" \o (IF last \/ x.params = "" THEN "" ELSE "(" \o x.params \o ")")
Name(f) ==
  IF f.lambdas = <<>> THEN Head0(f)
  ELSE Head0(f) \o f.targs \o "(" \o f.params \o ")"
       \o JoinAll([i \in 1..Len(f.lambdas) |-> Kept(f.lambdas[i], i = Len(f.lambdas))], "")
=============================================================================
