---------------------------- MODULE DiffToolTrace ----------------------------
(* Recorded runs of the real diff program on real files, judged: flags to     *)
(* options by DiffTool, the diff under them as the library's is.  Every run   *)
(* was repeated with everything shown, to see the script.                     *)
EXTENDS TraceBase, DiffsJudge
T == INSTANCE DiffTool
Prefix(b) == IF b = <<46, 42, 47>> THEN [kind |-> "dirs", text |-> b] ELSE IF b = <<91, 94, 47, 93, 42, 47>> THEN [kind |-> "one", text |-> b]
             ELSE IF b = <<40, 97, 124, 98, 41, 47>> THEN [kind |-> "alt", text |-> b] ELSE [kind |-> "plain", text |-> b]
RunOk(r) ==
  LET fs == r.flags
      o == T!Compare(fs)
      show == T!Show(fs)
      n == T!Num(fs, "max_lines", 0) IN
  IF T!Answer(fs, r.files, TRUE) = T!Trouble THEN r.out = <<>> /\ IF T!Known(fs) /\ (o.rl.kind = "bad" \/ o.rr.kind = "bad") THEN r.code \notin {T!Equal, T!Differ} ELSE r.code = T!Trouble
  ELSE LET A == r.files[1]
           B == r.files[2]
           L == TLCEval(T!Read(A.data, n))
           R == TLCEval(T!Read(B.data, n))
           time(f) == T!Clock(IF T!Bool(fs, "skip_time", FALSE) THEN 0 ELSE f.time)
           head == HeadOf([use |-> T!Use(fs), lname |-> A.name, rname |-> B.name, fmt |-> show.fmt, how |-> Prefix(T!Bytes(fs, "strip_file_header_prefix")), ltime |-> time(A), rtime |-> time(B), L |-> L, R |-> R])
           alg == IF T!Alg(fs) = "unified" THEN "myers" ELSE T!Alg(fs)
           body == IF r.out = <<>> THEN <<>> ELSE From(r.out, Len(head)) IN
       /\ r.code = T!Answer(fs, r.files, r.out = <<>>)
       /\ r.bcode = T!Answer(fs, r.files, r.bout = <<>>)
       /\ r.out # <<>> => StartsWith(r.out, head) /\ Len(r.out) > Len(head)
       /\ DiffOk([o |-> o, alg |-> alg, least |-> alg = "myers" /\ T!Bool(fs, "minimal", FALSE), least64 |-> alg = "myers", exact |-> T!Exact(fs), L |-> L, R |-> R, ok |-> TRUE,
                  big |-> r.big, bout |-> r.bout, outs |-> <<[fmt |-> show.fmt, c |-> show.c, width |-> show.width, hdr |-> show.hdr, skip |-> show.skip, out |-> body]>>])
CallOk(r) == IF r.op = "run" THEN RunOk(r) ELSE FALSE
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Accept(CallOk(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
