------------------------------ MODULE Mangling ------------------------------
(***************************************************************************)
(* Types as terms, their mangled names and their readable names.           *)
(*   b  built in type c            ptr ref rref const  of a[1]             *)
(*   fn returning a[1], taking the other a                                 *)
(*   arr n elements a[1]           name  qualified, with template arguments*)
(*   lit value v of type c         sym   function with parameters a        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
Builtin == [v |-> "void", b |-> "bool", c |-> "char", a |-> "signed char", h |-> "unsigned char", s |-> "short", t |-> "unsigned short",
            i |-> "int", j |-> "unsigned int", l |-> "long", m |-> "unsigned long", x |-> "long long", y |-> "unsigned long long",
            w |-> "wchar_t", f |-> "float", d |-> "double", e |-> "long double"]
LitSuffix == [i |-> "", j |-> "u", l |-> "l", m |-> "ul", x |-> "ll", y |-> "ull"]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Cat(Tail(ss))
RECURSIVE Commas(_)
Commas(ss) == IF Len(ss) = 0 THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o ", " \o Commas(Tail(ss))
RECURSIVE Mangle(_)
MangleAll(ts) == Cat([i \in 1..Len(ts) |-> Mangle(ts[i])])
Part(p) == ToString(Len(p.id)) \o p.id \o IF p.args = <<>> THEN "" ELSE "I" \o MangleAll(p.args) \o "E"
Name(t) == LET ps == Cat([i \in 1..Len(t.parts) |-> Part(t.parts[i])])
               st == IF t.std THEN "St" ELSE "" IN
           IF Len(t.parts) = 1 THEN st \o ps ELSE "N" \o st \o ps \o "E"
Mangle(t) ==
  CASE t.k = "b" -> t.c
    [] t.k = "ptr" -> "P" \o Mangle(t.a[1])
    [] t.k = "ref" -> "R" \o Mangle(t.a[1])
    [] t.k = "rref" -> "O" \o Mangle(t.a[1])
    [] t.k = "const" -> "K" \o Mangle(t.a[1])
    [] t.k = "fn" -> "F" \o Mangle(t.a[1]) \o (IF Len(t.a) = 1 THEN "v" ELSE MangleAll(Tail(t.a))) \o "E"
    [] t.k = "arr" -> "A" \o ToString(t.n) \o "_" \o Mangle(t.a[1])
    [] t.k = "name" -> Name(t)
    [] t.k = "lit" -> "L" \o t.c \o (IF t.n < 0 THEN "n" \o ToString(-t.n) ELSE ToString(t.n)) \o "E"
    [] t.k = "sym" -> "_Z" \o Name(t) \o IF t.a = <<>> THEN "v" ELSE MangleAll(t.a)
RECURSIVE Decl(_, _)
Show(t) == Decl(t, "")
ShowAll(ts) == Commas([i \in 1..Len(ts) |-> Show(ts[i])])
LastCh(s) == IF s = "" THEN "" ELSE SubSeq(s, Len(s), Len(s))
ShowPart(p) == (IF p.id = "_GLOBAL__N_1" THEN "(anonymous namespace)" ELSE p.id)
               \o IF p.args = <<>> THEN "" ELSE LET s == ShowAll(p.args) IN "<" \o s \o (IF LastCh(s) = ">" THEN " >" ELSE ">")
RECURSIVE Colons(_)
Colons(ss) == IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o "::" \o Colons(Tail(ss))
ShowName(t) == (IF t.std THEN "std::" ELSE "") \o Colons([i \in 1..Len(t.parts) |-> ShowPart(t.parts[i])])
Inner(s) == IF s = "" THEN "" ELSE "(" \o s \o ")"
Decl(t, in) ==
  CASE t.k = "b" -> Builtin[t.c] \o in
    [] t.k = "name" -> ShowName(t) \o in
    [] t.k = "ptr" -> Decl(t.a[1], "*" \o in)
    [] t.k = "ref" -> Decl(t.a[1], "&" \o in)
    [] t.k = "rref" -> Decl(t.a[1], "&&" \o in)
    [] t.k = "const" -> Decl(t.a[1], " const" \o in)
    [] t.k = "fn" -> Show(t.a[1]) \o " " \o Inner(in) \o "(" \o ShowAll(Tail(t.a)) \o ")"
    [] t.k = "arr" -> Show(t.a[1]) \o " " \o (IF in = "" THEN "" ELSE Inner(in) \o " ") \o "[" \o ToString(t.n) \o "]"
    [] t.k = "lit" -> IF t.c = "b" THEN (IF t.n = 0 THEN "false" ELSE "true")
                      ELSE IF t.c \in DOMAIN LitSuffix THEN ToString(t.n) \o LitSuffix[t.c]
                      ELSE "(" \o Builtin[t.c] \o ")" \o ToString(t.n)
    [] t.k = "sym" -> ShowName(t) \o "(" \o ShowAll(t.a) \o ")"
\* Texts that are no mangled names, whatever else is one:
At(s, i) == SubSeq(s, i, i)
Odd == {" ", "!", "/", "-", "#", "(", "<", ":"}
FirstOk == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z","_",
            "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z",
            "0","1","2","3","4","5","6","7","8","9"}
NoName(s) ==
  \/ s = ""
  \/ At(s, 1) \notin FirstOk \/ At(s, 1) = "0"
  \/ At(s, 1) \in DOMAIN Builtin /\ Len(s) > 1
  \/ At(s, 1) = "_" /\ (Len(s) = 1 \/ At(s, 2) \notin {"Z", "G", "_"} \/ s = "_Z")
\* a mangled name and then something that continues no name
Broken(t, tail) == tail # "" /\ At(tail, 1) \in Odd
=============================================================================
