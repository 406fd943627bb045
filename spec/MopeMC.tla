------------------------------- MODULE MopeMC -------------------------------
(* The expansion as a machine with a stack: a frame for the text and one for  *)
(* each section that is being shown.  Checked for all short texts of tokens   *)
(* and several templates: it ends, and says what Expand says; loops leave     *)
(* nothing behind; text without tags is copied.                               *)
EXTENDS Mope
CONSTANTS Tokens, MaxTokens, Data
VARIABLES text, es, stack, ctx, status, sets
vars == <<text, es, stack, ctx, status, sets>>
\* frame: [es, out, rest, plan, name, body, k, acc, behind]; the section's plan runs in the frame above the text it is in
Base(e, s) == [es |-> e, out |-> <<>>, rest |-> s, sec |-> FALSE, plan |-> Fail(0), name |-> <<>>, body |-> <<>>, k |-> 0, acc |-> <<>>, tail |-> <<>>, kept |-> <<>>]
RECURSIVE Joined(_)
Joined(ts) == IF ts = <<>> THEN <<>> ELSE ts[1] \o Joined(Tail(ts))
Init == /\ \E n \in 0..MaxTokens : \E ts \in [1..n -> Tokens] : text = Joined(ts)
        /\ es \in Data /\ stack = <<Base(es, text)>> /\ ctx = <<>> /\ status = -1 /\ sets = {}
Top == stack[Len(stack)]
Below == SubSeq(stack, 1, Len(stack) - 1)
Become(f) == stack' = Append(Below, f)
Running == status = -1
Stop(code) == status' = code /\ UNCHANGED <<stack, ctx, sets>>
\* a section frame shows its body again or gives its text to the frame below
ShowNext(f, c) ==
  LET item == f.plan.items[f.k + 1]
      es2 == IF f.plan.kind = "dict" THEN item.t ELSE f.es IN
  /\ stack' = Append(Append(Below, [f EXCEPT !.k = @ + 1]), Base(es2, f.body))
  /\ ctx' = CASE f.plan.kind = "dict" -> c [] f.plan.kind = "loop" -> Put(c, f.name, "r", Decimal(item)) [] OTHER -> Put(c, f.name, "s", item)
  /\ UNCHANGED <<status, sets>>
SectionStep == LET f == Top IN
  /\ Running /\ f.sec
  /\ IF f.k < Len(f.plan.items) THEN ShowNext(f, ctx)
     ELSE LET b == Below[Len(Below)] IN
          /\ stack' = Append(SubSeq(Below, 1, Len(Below) - 1), [b EXCEPT !.out = f.kept \o f.acc, !.rest = f.tail])
          /\ ctx' = (IF f.plan.kind = "dict" THEN ctx ELSE Erase(ctx, f.name))
          /\ UNCHANGED <<status, sets>>
EndText == LET f == Top IN
  /\ Running /\ ~f.sec /\ NextTag(f.rest).p = 0
  /\ IF Len(stack) = 1 THEN status' = 0 /\ Become([f EXCEPT !.out = @ \o f.rest, !.rest = <<>>]) /\ UNCHANGED <<ctx, sets>>
     ELSE LET s == Below[Len(Below)] IN
          /\ stack' = Append(SubSeq(Below, 1, Len(Below) - 1), [s EXCEPT !.acc = @ \o (IF s.k > 1 THEN s.plan.join ELSE <<>>) \o f.out \o f.rest])
          /\ UNCHANGED <<ctx, status, sets>>
TagStep == LET f == Top IN
  /\ Running /\ ~f.sec /\ NextTag(f.rest).p # 0
  /\ LET tag == NextTag(f.rest)
         before == f.out \o SubSeq(f.rest, 1, tag.p - 1)
         after == From(f.rest, tag.p + tag.n - 1)
         alone == (tag.sec \/ tag.has = 61) /\ Alone(before, TRUE, after)
         kept == IF alone THEN DropBlanks(before) ELSE before
         next == IF alone THEN From(after, EolLen(after)) ELSE after
         v == Lookup(f.es, ctx, tag.name) IN
     IF tag.sec THEN
       LET e == Find(next, EndTag(tag.name))
           raw == SubSeq(next, 1, e)
           behind == From(next, e + Len(tag.name) + 5)
           lone == Alone(raw, alone, behind)
           plan == PlanOf(tag, f.es, ctx) IN
       IF e < 0 THEN Stop(Invalid)
       ELSE IF plan.code # 0 THEN Stop(plan.code)
       ELSE /\ stack' = Append(stack, [Base(f.es, <<>>) EXCEPT !.sec = TRUE, !.plan = plan, !.name = tag.name, !.body = IF lone THEN DropBlanks(raw) ELSE raw,
                                        !.kept = kept, !.tail = IF lone THEN From(behind, EolLen(behind)) ELSE behind])
            /\ UNCHANGED <<ctx, status, sets>>
     ELSE IF tag.extra # <<>> THEN
       IF tag.has # 61 THEN Become([f EXCEPT !.out = kept, !.rest = next]) /\ UNCHANGED <<ctx, status, sets>>
       ELSE IF At(f.es, tag.name) > 0 THEN Stop(Invalid)
       ELSE IF At(ctx, tag.name) > 0 /\ v.k = "r" THEN Stop(Exists)
       ELSE Become([f EXCEPT !.out = kept, !.rest = next]) /\ ctx' = Put(ctx, tag.name, "s", tag.extra) /\ sets' = sets \cup {tag.name} /\ UNCHANGED status
     ELSE IF v.k = "" THEN Become([f EXCEPT !.out = before \o SubSeq(f.rest, tag.p, tag.p + tag.n - 1) \o (IF alone THEN SubSeq(after, 1, EolLen(after)) ELSE <<>>), !.rest = next]) /\ UNCHANGED <<ctx, status, sets>>
     ELSE IF v.k = "d" THEN Stop(Unimplemented)
     ELSE Become([f EXCEPT !.out = kept \o v.v, !.rest = next]) /\ UNCHANGED <<ctx, status, sets>>
Next == (SectionStep \/ EndText \/ TagStep) /\ UNCHANGED <<text, es>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == status # -1
Agrees == Done => LET r == Expand(es, <<>>, text) IN r.code = status /\ (status = 0 => r.out = stack[1].out /\ r.ctx = ctx)
\* only what the text sets stays in the context
Clean == (Done /\ status = 0) => \A i \in 1..Len(ctx) : ctx[i].k = "s" /\ ctx[i].n \in sets
Plain == (Done /\ ~\E i \in 1..Len(text) : Two(text, i, 123)) => status = 0 /\ stack[1].out = text
\* loops that run have names of their own
Distinct == \A i, j \in 1..Len(stack) : (i # j /\ stack[i].sec /\ stack[j].sec /\ stack[i].plan.kind \in {"loop", "list"} /\ stack[j].plan.kind = "loop" /\ stack[j].k > 0 /\ i > j) => stack[i].name # stack[j].name
Ends == <>Done
a == <<97>>
s == <<115>>
Op(b) == <<123, 123>> \o b \o <<125, 125>>
MCTokens == {<<120>>, <<10>>, <<32>>, Op(a), Op(a \o <<61, 118>>), Op(<<35>> \o s), Op(<<47>> \o s), Op(<<35>> \o a \o <<61, 49, 59, 50>>), Op(<<47>> \o a),
             Op(<<35>> \o s \o <<61, 91, 49, 44, 50, 93, 59>> \o a), Op(s)}
Dict(t) == [id |-> 0, t |-> t]
MCData == {<<>>, <<Entry(a, "s", <<121>>, <<>>)>>,
           <<Entry(s, "d", <<>>, <<Dict(<<Entry(a, "s", <<121>>, <<>>)>>), Dict(<<>>)>>)>>}
=============================================================================
