------------------------------ MODULE MopeTool -------------------------------
(* The template program: flags in their order (a later one wins) name a       *)
(* template, settings, an INI file and where the text goes.  A flag is        *)
(* [n: name, b: bytes]; a file is [name, kind: 0 nothing there, 1 a file, 2 a *)
(* directory, 3 nowhere, data].                                               *)
EXTENDS Mope
I == INSTANCE Ini WITH Texts <- {}, Names <- {}, data <- {}, last <- <<>>
Success == 0
Failure == 1
Given(fs, n) == {k \in 1..Len(fs) : fs[k].n = n}
Bytes(fs, n, default) == IF Given(fs, n) = {} THEN default ELSE fs[Max(Given(fs, n))].b
\* ---- settings: a list by commas of key or key=value, the key by colons
Items(b) == IF b = <<>> THEN <<>> ELSE SplitAt(b, 44)
KeyOf(item) == LET p == Find(item, <<61>>) IN IF p < 0 THEN item ELSE SubSeq(item, 1, p)
ValueOf(item) == LET p == Find(item, <<61>>) IN IF p < 0 THEN <<>> ELSE From(item, p + 1)
Front1(s) == SubSeq(s, 1, Len(s) - 1)
\* st: [code, nodes (of which 1 is the root), ctx: what is set everywhere]
Nothing == [code |-> OkC, nodes |-> <<<<>>>>, ctx |-> <<>>]
RECURSIVE Enter(_, _, _)
\* a new dictionary in each section on the way: <<st, where>>
Enter(st, path, at) ==
  IF path = <<>> THEN <<st, at>>
  ELSE LET code == IF path[1] = <<>> THEN Invalid ELSE AddCode(st.nodes[at], path[1]) id == Len(st.nodes) + 1 IN
       IF code # OkC THEN <<[st EXCEPT !.code = code], at>>
       ELSE Enter([st EXCEPT !.nodes = Append([@ EXCEPT ![at] = AddTo(@, path[1], [id |-> id, t |-> <<>>])], <<>>)], Tail(path), id)
Apply(st, item) ==
  IF st.code # OkC THEN st
  ELSE LET parts == SplitAt(KeyOf(item), 58) key == parts[Len(parts)] path == Front1(parts) IN
       IF key = <<>> THEN [st EXCEPT !.code = Invalid]
       ELSE IF path = <<<<>>>> THEN [st EXCEPT !.ctx = Put(@, key, "s", ValueOf(item))]
       ELSE LET e == Enter(st, path, 1) s == e[1] at == e[2] IN
            IF s.code # OkC THEN s
            ELSE LET code == SetCode(s.nodes[at], key, FALSE) IN
                 IF code # OkC THEN [s EXCEPT !.code = code] ELSE [s EXCEPT !.nodes[at] = SetTo(@, key, ValueOf(item))]
ApplyAll(items) == FoldLeft(Apply, Nothing, items)
\* ---- an INI text as groups, in the order of their names
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : CmpStr(a, b) < 0)
GroupsOf(text) == LET d == I!Parse(text) gs == Sorted(I!Groups(d)) IN
  [g \in 1..Len(gs) |-> LET ks == Sorted({e[2] : e \in {x \in d : x[1] = gs[g]}}) IN <<gs[g], [k \in 1..Len(ks) |-> <<ks[k], I!Get(d, gs[g], ks[k])>>]>>]
\* ---- the text for a template, its settings and the groups of an INI file
Output(st, groups, text) ==
  LET s == IF st.code # OkC THEN st ELSE FromGroups(groups, Tree(st.nodes, st.nodes[1])) IN
  IF s.code # OkC THEN Result(s.code, <<>>, <<>>)
  ELSE IF \E k \in 1..Len(st.ctx) : ~ValidName(st.ctx[k].n) THEN Result(Invalid, <<>>, <<>>)
  ELSE Expand(Tree(s.nodes, s.nodes[1]), st.ctx, text)
\* ---- a run: [code, out, to: the name of a file or <<>>, text]
FileOf(files, name) == LET P == {k \in 1..Len(files) : files[k].name = name} IN IF P = {} THEN [name |-> name, kind |-> 0, data |-> <<>>] ELSE files[Min(P)]
Failed == [code |-> Failure, out |-> <<>>, to |-> <<>>, text |-> <<>>]
Dash == <<45>>
Run(fs, rest, files) ==
  LET template == Bytes(fs, "template", <<>>)
      ini == Bytes(fs, "ini", <<>>)
      to == Bytes(fs, "generate", Dash)
      t == FileOf(files, template)
      i == FileOf(files, ini)
      r == Output(ApplyAll(Items(Bytes(fs, "set", <<>>))), IF ini = <<>> THEN <<>> ELSE GroupsOf(i.data), t.data) IN
  IF rest > 0 \/ template = <<>> THEN Failed
  ELSE IF t.kind # 1 \/ (ini # <<>> /\ i.kind # 1) THEN Failed
  ELSE IF r.code # OkC THEN Failed
  ELSE IF to \in {<<>>, Dash} THEN [code |-> Success, out |-> r.out, to |-> <<>>, text |-> <<>>]
  ELSE IF FileOf(files, to).kind \in {2, 3} THEN Failed
  ELSE [code |-> Success, out |-> <<>>, to |-> to, text |-> r.out]
\* the files afterwards
After(fs, rest, files) == LET r == Run(fs, rest, files) IN
  [k \in 1..Len(files) |-> IF r.to # <<>> /\ files[k].name = r.to THEN [files[k] EXCEPT !.kind = 1, !.data = r.text] ELSE files[k]]
=============================================================================
