----------------------------- MODULE FileStore -----------------------------
(* A store of named files, directories and links.  Contents are runs        *)
(* <<byte, count>> with adjacent runs of different bytes.  place[n] is the  *)
(* name of the directory n lives in (0: one that always exists).  Faulty    *)
(* names (3 as kind) can be looked at, but neither read nor written.        *)
EXTENDS Integers, Sequences, TLC
CONSTANTS NNames, InitPlace, Datas, Times
VARIABLES place, kind, data, target, mtime
vars == <<place, kind, data, target, mtime>>
None == 0
File == 1
Dir == 2
Faulty == 3
Link == 4
NL == 10
RECURSIVE Follow(_, _, _)
Follow(n, depth, k) == IF depth = 0 THEN 0 ELSE IF k[n] = Link THEN Follow(target[n], depth - 1, k) ELSE n
Real(n) == Follow(n, 8, kind)   \* 0: links in circles
\* the directory of n is one (directories and links are not in others)
Reach(n) == IF place[n] = 0 THEN TRUE ELSE LET r == Real(place[n]) IN IF r = 0 THEN FALSE ELSE kind[r] = Dir
Exists(n) == IF ~Reach(n) THEN FALSE ELSE LET r == Real(n) IN IF r = 0 THEN FALSE ELSE kind[r] # None
IsFile(n) == Exists(n) /\ kind[Real(n)] = File
IsDir(n) == Exists(n) /\ kind[Real(n)] = Dir
CanWrite(n) == IF ~Reach(n) THEN FALSE ELSE LET r == Real(n) IN IF r = 0 THEN FALSE ELSE kind[r] \in {None, File}
RECURSIVE Size(_)
Size(d) == IF d = <<>> THEN 0 ELSE Head(d)[2] + Size(Tail(d))
RECURSIVE Lines(_)
Lines(d) == IF d = <<>> THEN 0 ELSE (IF Head(d)[1] = NL THEN Head(d)[2] ELSE 0) + Lines(Tail(d))
RECURSIVE MaxLines(_, _)
\* the longest beginning with at most n lines, a last line without newline counts as one
MaxLines(d, n) ==
  IF d = <<>> \/ n = 0 THEN <<>>
  ELSE LET h == Head(d) IN
       IF h[1] # NL THEN <<h>> \o MaxLines(Tail(d), n)
       ELSE IF h[2] >= n THEN <<<<NL, n>>>> ELSE <<h>> \o MaxLines(Tail(d), n - h[2])
Canonical(d) == /\ \A i \in 1..Len(d) : d[i][2] > 0
                /\ \A i \in 1..Len(d) - 1 : d[i][1] # d[i + 1][1]
IsBeginning(a, b) == a = <<>> \/ /\ Len(a) <= Len(b)
                                 /\ SubSeq(a, 1, Len(a) - 1) = SubSeq(b, 1, Len(a) - 1)
                                 /\ a[Len(a)][1] = b[Len(a)][1] /\ a[Len(a)][2] <= b[Len(a)][2]
\* actions
Set(n, d, t) == LET r == Real(n) IN
  /\ CanWrite(n)
  /\ kind' = [kind EXCEPT ![r] = File] /\ data' = [data EXCEPT ![r] = d] /\ mtime' = [mtime EXCEPT ![r] = t]
  /\ UNCHANGED <<place, target>>
Remove(n) == /\ kind' = [m \in DOMAIN kind |-> IF m = n \/ place[m] = n THEN None ELSE kind[m]]
             /\ data' = [m \in DOMAIN data |-> IF m = n \/ place[m] = n THEN <<>> ELSE data[m]]
             /\ UNCHANGED <<place, target, mtime>>
MkDir(n, t) == /\ kind[n] = None /\ kind' = [kind EXCEPT ![n] = Dir] /\ mtime' = [mtime EXCEPT ![n] = t] /\ UNCHANGED <<place, data, target>>
MkLink(n, m) == /\ kind[n] = None /\ kind' = [kind EXCEPT ![n] = Link] /\ target' = [target EXCEPT ![n] = m]
                /\ UNCHANGED <<place, data, mtime>>
Touch(n, t) == /\ Exists(n) /\ mtime' = [mtime EXCEPT ![Real(n)] = t] /\ UNCHANGED <<place, kind, data, target>>
Names == 1..NNames
Init == /\ place = InitPlace
        /\ kind = [n \in Names |-> None]
        /\ data = [n \in Names |-> <<>>] /\ target = [n \in Names |-> n] /\ mtime = [n \in Names |-> 0]
Next == \E n \in Names : \/ \E d \in Datas : Set(n, d, 0)
                         \/ Reach(n) /\ Remove(n)
                         \/ place[n] = 0 /\ MkDir(n, 0)
                         \/ place[n] = 0 /\ \E m \in {x \in Names : place[x] = 0} : MkLink(n, m)
                         \/ \E t \in Times : Touch(n, t)
Spec == Init /\ [][Next]_vars
\* promises
TypeOK == \A n \in Names : kind[n] \in 0..4 /\ (kind[n] # File => data[n] = <<>>) /\ Canonical(data[n])
OneKind == \A n \in Names : ~(IsFile(n) /\ IsDir(n)) /\ (IsFile(n) => CanWrite(n)) /\ (IsDir(n) => ~CanWrite(n))
LinesOk == \A n \in Names : \A k \in 0..4 :
   LET d == data[n] m == MaxLines(d, k) IN
   /\ IsBeginning(m, d) /\ Canonical(m) /\ Lines(m) <= k
   /\ (Lines(m) < k => m = d)
   /\ (Lines(d) < k => m = d)
   /\ (m # d /\ m # <<>> => m[Len(m)][1] = NL)
Stored == [][\A n \in Names : \A d \in Datas : Set(n, d, 0) => \A m \in Names : (Real(m) = Real(n)) => data'[Real(m)] = d]_vars
Others == [][\A n \in Names : \A d \in Datas : Set(n, d, 0) => \A m \in Names : m # Real(n) => data'[m] = data[m] /\ kind'[m] = kind[m]]_vars
=============================================================================
