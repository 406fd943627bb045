----------------------------- MODULE StatusBuild -----------------------------
(* Building a status from another one, and passing statuses up a chain of    *)
(* calls (mbo/status).                                                        *)
(*                                                                            *)
(* A status is [code, msg, pays]: code 0 is ok, which has no message and no   *)
(* payloads; pays is a set of <<url, content>> with one entry per url.        *)
(* A builder holds the status it was made from, the text given before and    *)
(* after the status' own message was asked to be placed, and where the text  *)
(* goes: mode 0 nothing was said (behind the message), 1 in front, 2 behind. *)
(* Numbers are written in base fmt.base, filled to fmt.width once.           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

OkStatus == [code |-> 0, msg |-> <<>>, pays |-> {}]
Plain == [base |-> 10, width |-> 0, fill |-> 32]
Made(s) == [st |-> s, before |-> <<>>, after |-> <<>>, mode |-> 0, fmt |-> Plain]
OkBuilder == Made(OkStatus)
IsOk(b) == b.st.code = 0

RECURSIVE Digits(_, _)
Digits(n, base) == LET d == n % base
                       c == IF d < 10 THEN 48 + d ELSE 87 + d
                   IN IF n < base THEN <<c>> ELSE Append(Digits(n \div base, base), c)
Number(n, base) == IF n >= 0 THEN Digits(n, base) ELSE <<45>> \o Digits(-n, base)
Padded(t, f) == IF Len(t) >= f.width THEN t ELSE [i \in 1..(f.width - Len(t)) |-> f.fill] \o t

\* A text written under the format in force; the width is used up by it.
Written(b, t) == IF IsOk(b) THEN b
                 ELSE LET p == Padded(t, b.fmt)
                          c == [b EXCEPT !.fmt.width = 0]
                      IN IF b.mode = 2 THEN [c EXCEPT !.after = @ \o p] ELSE [c EXCEPT !.before = @ \o p]
WrittenNum(b, n) == Written(b, Number(n, b.fmt.base))
Formatted(b, what, v) == IF IsOk(b) THEN b
                         ELSE CASE what = "base" -> [b EXCEPT !.fmt.base = v]
                                [] what = "width" -> [b EXCEPT !.fmt.width = v]
                                [] what = "fill" -> [b EXCEPT !.fmt.fill = v]
Prepending(b) == IF IsOk(b) \/ b.mode = 2 THEN b ELSE [b EXCEPT !.mode = 1]
Appending(b) == IF IsOk(b) THEN b ELSE [b EXCEPT !.mode = 2]
PaysWith(ps, url, c) == {p \in ps : p[1] # url} \cup {<<url, c>>}
Paying(b, url, c) == IF IsOk(b) THEN b ELSE [b EXCEPT !.st.pays = PaysWith(@, url, c)]

Message(b) == IF b.mode = 0 THEN b.st.msg \o b.before ELSE b.before \o b.st.msg \o b.after
Built(b) == IF IsOk(b) THEN OkStatus ELSE [code |-> b.st.code, msg |-> Message(b), pays |-> b.st.pays]

(* ---------------------------------------------------------------- calls ---*)
(* A level is a list of steps, each one a call of a leaf (which answers with *)
(* a status, or a value if that is ok) or of a level below. The first step   *)
(* which does not succeed ends the level with that step's status, extended   *)
(* as the step says; a level that comes to its end answers with the sum of   *)
(* the values of its steps. What was called, in order, is kept in `log`.     *)
Extended(s, x) ==
  LET b == Made(s)
      p == CASE x.how = 0 -> b                                       \* as is
             [] x.how = 1 -> Written(b, x.pre)                       \* text, no place given
             [] x.how = 2 -> Written(Prepending(b), x.pre)
             [] x.how = 3 -> Written(Appending(Written(Prepending(b), x.pre)), x.suf)
             [] x.how = 4 -> Written(Appending(b), x.suf)
             [] x.how = 5 -> Paying(Written(Appending(b), x.suf), x.pre, x.suf)
  IN Built(p)
RECURSIVE Run(_, _)
Ended(r) == r.st.code # 0
Run(steps, acc) ==      \* acc: [st, sum, log]
  IF steps = <<>> \/ Ended(acc) THEN acc
  ELSE LET x == Head(steps)
           r == IF x.leaf THEN [st |-> x.st, sum |-> IF x.st.code = 0 THEN x.value ELSE 0, log |-> Append(acc.log, x.id)]
                ELSE Run(x.steps, [st |-> OkStatus, sum |-> 0, log |-> Append(acc.log, x.id)])
       IN Run(Tail(steps),
              IF Ended(r) THEN [st |-> Extended(r.st, x), sum |-> 0, log |-> r.log]
              ELSE [st |-> OkStatus, sum |-> acc.sum + (IF x.takes THEN r.sum ELSE 0), log |-> r.log])
RunAll(steps) == Run(steps, [st |-> OkStatus, sum |-> 0, log |-> <<>>])
=============================================================================
