------------------------------ MODULE DiffToolMC ------------------------------
(* Command lines of the diff program, built flag by flag.                     *)
EXTENDS DiffTool
CONSTANT MaxFlags
VARIABLES fs, files
vars == <<fs, files>>
F(n, s, b, i) == [n |-> n, s |-> s, b |-> b, i |-> i]
Vocabulary == {F("algorithm", a, <<>>, 0) : a \in {"direct", "myers", "unified", "other"}} \cup {F("format", a, <<>>, 0) : a \in {"normal", "side-by-side", "unified"}}
              \cup {F("context", "", <<>>, i) : i \in {0, 3}} \cup {F("show_chunk_headers", "", <<>>, i) : i \in 0..1} \cup {F("file_header_use", a, <<>>, 0) : a \in {"none", "x"}}
              \cup {F("strip_comments", "", b, 0) : b \in {<<>>, <<35>>}} \cup {F("strip_parsed_comments", "", <<>>, 0)} \cup {F("ignore_matching_lines", "", <<94, 35>>, 0)}
              \cup {F("regex_replace_lhs", "", b, 0) : b \in {<<47, 94, 35, 47, 98, 47>>, <<47, 98, 47>>}}
File == {[there |-> TRUE, data |-> <<97, 10>>], [there |-> FALSE, data |-> <<>>]}
Init == fs = <<>> /\ files \in UNION {[1..n -> File] : n \in 0..3}
Next == Len(fs) < MaxFlags /\ UNCHANGED files /\ \E f \in Vocabulary : fs' = Append(fs, f)
Spec == Init /\ [][Next]_vars
Sane == Compare(fs).rl.kind # "bad" /\ Compare(fs).rr.kind # "bad"
\* without flags
Plain == fs = <<>> => /\ Known(fs) /\ Exact(fs) /\ Show(fs) = [fmt |-> "unified", c |-> 3, width |-> 130, hdr |-> TRUE, skip |-> FALSE]
\* trouble does not depend on what is in the files; no trouble is neither 0 nor 1
Answers == \A same \in BOOLEAN : LET a == Answer(fs, files, same) IN
             /\ a \in {Equal, Differ, Trouble}
             /\ (a = Trouble) = (Answer(fs, files, ~same) = Trouble)
             /\ (a = Trouble) = ~(Len(files) = 2 /\ (\A k \in 1..Len(files) : files[k].there) /\ Known(fs) /\ Sane)
             /\ a # Trouble => (a = Equal) = same
\* what is asked for is done
Explicit == /\ Has(fs, "context") => Show(fs).c = Flag(fs, "context").i
            /\ Has(fs, "show_chunk_headers") => Show(fs).hdr = (Flag(fs, "show_chunk_headers").i = 1)
            /\ ~Has(fs, "context") /\ Format(fs) = "normal" => Show(fs).c = 0
            /\ ~Has(fs, "context") /\ Format(fs) = "side-by-side" => Show(fs).c = Huge
\* flags of different names may change places; of the same name the last counts
Swapped == \A k \in 1..(Len(fs) - 1) :
             LET gs == [fs EXCEPT ![k] = fs[k + 1], ![k + 1] = fs[k]] IN
             IF fs[k].n = fs[k + 1].n THEN LET hs == SubSeq(fs, 1, k - 1) \o SubSeq(fs, k + 1, Len(fs)) IN Compare(hs) = Compare(fs) /\ Show(hs) = Show(fs) /\ Known(hs) = Known(fs)
             ELSE Compare(gs) = Compare(fs) /\ Show(gs) = Show(fs) /\ Known(gs) = Known(fs)
\* the clock goes forward by one second, through all the lengths of months and years
Days == {0, 1, 58, 59, 60, 364, 365, 789, 790, 10956, 11015, 11016, 11017, 11322, 20000, 24836}
Clocks == /\ Clock(0) = <<49,57,55,48,45,48,49,45,48,49,32,48,48,58,48,48,58,48,48,46,48,48,48,32,43,48,48,48,48>>
          /\ \A d \in Days : Len(Clock(d * 86400)) = 29 /\ Clock((d * 86400) + 3661) = SubSeq(Clock(d * 86400), 1, 11) \o <<48,49,58,48,49,58,48,49>> \o SubSeq(Clock(0), 20, 29)
          /\ SubSeq(Clock(951782400), 1, 10) = <<50,48,48,48,45,48,50,45,50,57>>
Reads == \A n \in 0..4 : \A t \in {<<>>, <<97>>, <<97, 10>>, <<97, 10, 10, 98>>, <<10, 10, 10>>} :
           LET r == Read(t, n) IN /\ r = SubSeq(t, 1, Len(r)) /\ (n > 0 => Cardinality({i \in 1..Len(r) : r[i] = 10}) <= n) /\ (r # t => r # <<>> /\ r[Len(r)] = 10)
Once == fs # <<>> \/ (Clocks /\ Reads)
=============================================================================
