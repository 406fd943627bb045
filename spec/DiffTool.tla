------------------------------- MODULE DiffTool -------------------------------
(* The diff program: a command line (flags in their order, a later one wins,  *)
(* then files) makes options; two files and options make an answer: 0 and     *)
(* nothing to read, 1 and the diff, or trouble.  A flag is [n: name, s: text, *)
(* b: bytes, i: number].                                                      *)
EXTENDS Strings, TLC
Equal == 0
Differ == 1
Trouble == 2
Huge == 1000000
\* ---- flags
Given(fs, n) == {k \in 1..Len(fs) : fs[k].n = n}
Has(fs, n) == Given(fs, n) # {}
Flag(fs, n) == fs[Max(Given(fs, n))]
Text(fs, n, default) == IF Has(fs, n) THEN Flag(fs, n).s ELSE default
Bytes(fs, n) == IF Has(fs, n) THEN Flag(fs, n).b ELSE <<>>
Num(fs, n, default) == IF Has(fs, n) THEN Flag(fs, n).i ELSE default
Bool(fs, n, default) == IF Has(fs, n) THEN Flag(fs, n).i = 1 ELSE default
\* ---- names
Alg(fs) == Text(fs, "algorithm", "myers")
Format(fs) == Text(fs, "format", "unified")
Use(fs) == Text(fs, "file_header_use", "both")
Known(fs) == /\ Alg(fs) \in {"direct", "myers", "naive", "unified"}
             /\ Format(fs) \in {"context", "normal", "side-by-side", "unified"}
             /\ Use(fs) \in {"both", "left", "none", "right"}
             /\ Alg(fs) = "unified" => Format(fs) = "unified"
\* ---- expressions that are known here, by their text
KindOf(b) == CASE b = <<91, 48, 45, 57, 93, 43>> -> "digits"  \* [0-9]+
               [] b = <<94, 35>> -> "hash"                    \* ^#
               [] b = <<94, 36>> -> "empty"                   \* ^$
               [] b = <<46, 36>> -> "last"                    \* .$
               [] OTHER -> "none"
\* <separator>expression<separator>text<separator>
ReplaceOf(b) == IF b = <<>> THEN [kind |-> "none", by |-> <<>>]
                ELSE LET p == SplitAt(b, b[1]) IN IF Len(p) # 4 THEN [kind |-> "bad", by |-> <<>>]
                     ELSE IF p[1] # <<>> \/ p[4] # <<>> THEN [kind |-> "bad", by |-> <<>>] ELSE [kind |-> KindOf(p[2]), by |-> p[3]]
\* ---- what counts as equal
Compare(fs) ==
  LET mark == Bytes(fs, "strip_comments") parsed == Bool(fs, "strip_parsed_comments", TRUE) IN
  [all |-> Bool(fs, "ignore_all_space", FALSE), multi |-> Bool(fs, "ignore_consecutive_space", FALSE), trail |-> Bool(fs, "ignore_trailing_space", FALSE),
   fold |-> Bool(fs, "ignore_case", FALSE), nonl |-> Bool(fs, "ignore_missing_final_newline", FALSE), blank |-> Bool(fs, "ignore_blank_lines", FALSE),
   chunks |-> Bool(fs, "ignore_matching_chunks", TRUE), match |-> KindOf(Bytes(fs, "ignore_matching_lines")), trim |-> TRUE, mark |-> mark,
   strip |-> IF mark = <<>> THEN "none" ELSE IF parsed THEN "parsed" ELSE "line",
   rl |-> ReplaceOf(Bytes(fs, "regex_replace_lhs")), rr |-> ReplaceOf(Bytes(fs, "regex_replace_rhs")),
   po |-> [stop |-> <<>>, stopstr |-> mark, split |-> <<>>, esc |-> <<40, 41, 123, 125, 91, 93, 60, 62, 44, 59, 38>>, dq |-> TRUE, sq |-> TRUE, rmq |-> FALSE, unq |-> TRUE]]
Exact(fs) == LET o == Compare(fs) IN ~(o.all \/ o.multi \/ o.trail \/ o.fold \/ o.nonl \/ o.blank) /\ o.match = "none" /\ o.strip = "none" /\ o.rl.kind = "none" /\ o.rr.kind = "none"
\* ---- how it is shown
Show(fs) ==
  LET f == Format(fs) direct == Alg(fs) = "direct" IN
  [fmt |-> IF f = "side-by-side" THEN "side" ELSE f,
   c |-> Num(fs, "context", IF f = "side-by-side" THEN Huge ELSE IF direct \/ f = "normal" THEN 0 ELSE 3),
   width |-> Num(fs, "width", 130), hdr |-> Bool(fs, "show_chunk_headers", ~direct), skip |-> Bool(fs, "skip_left_deletions", FALSE)]
\* ---- what is read: so many lines, all if 0
Read(text, n) == LET N == {i \in 1..Len(text) : text[i] = 10} IN
                 IF n = 0 \/ Cardinality(N) < n THEN text ELSE SubSeq(text, 1, CHOOSE i \in N : Cardinality({j \in N : j <= i}) = n)
\* ---- the clock: seconds since 1970 as YYYY-MM-DD hh:mm:ss.000 +0000
Two(n) == <<48 + (n \div 10), 48 + (n % 10)>>
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysOf(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
YearStart(y) == (365 * (y - 1970)) + ((y - 1969) \div 4) - ((y - 1901) \div 100) + ((y - 1601) \div 400)
RECURSIVE Month(_, _, _)
Month(y, m, d) == IF d < DaysOf(y, m) THEN <<m, d + 1>> ELSE Month(y, m + 1, d - DaysOf(y, m))
Clock(t) == LET d == t \div 86400 s == t % 86400
                y == CHOOSE y \in 1970..2106 : YearStart(y) <= d /\ d < YearStart(y + 1)
                md == Month(y, 1, d - YearStart(y)) IN
            Two(y \div 100) \o Two(y % 100) \o <<45>> \o Two(md[1]) \o <<45>> \o Two(md[2]) \o <<32>>
            \o Two(s \div 3600) \o <<58>> \o Two((s \div 60) % 60) \o <<58>> \o Two(s % 60) \o <<46, 48, 48, 48, 32, 43, 48, 48, 48, 48>>
\* ---- the answer, files being [there, data] and same telling whether nothing is to be shown
Answer(fs, files, same) ==
  IF Len(files) # 2 \/ (\E k \in 1..Len(files) : ~files[k].there) \/ ~Known(fs) \/ Compare(fs).rl.kind = "bad" \/ Compare(fs).rr.kind = "bad" THEN Trouble
  ELSE IF same THEN Equal ELSE Differ
=============================================================================
