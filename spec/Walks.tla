------------------------------- MODULE Walks -------------------------------
(* Walking a tree of entries and reporting those that are wanted.  up[i] is *)
(* the directory entry i is in (0: the root).                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Trees
VARIABLES up, todo, done, phase, want, gone
vars == <<up, todo, done, phase, want, gone>>
Idle == 0
Running == 1
Stopped == 2
Failed == 3
Broken == 4   \* the directory to enter next is not there any more
RECURSIVE Ancestors(_, _)
Ancestors(u, i) == IF u[i] = 0 THEN {} ELSE {u[i]} \cup Ancestors(u, u[i])
Below(u, i) == {j \in 1..Len(u) : i \in Ancestors(u, j)}
Depth(u, i) == Cardinality(Ancestors(u, i))
\* wanted entries, only those in the root itself if not recursive
Open(u, W, recursive) ==
  /\ phase = Idle /\ phase' = Running /\ up' = u
  /\ want' = {i \in W : recursive \/ u[i] = 0} /\ todo' = want' /\ done' = {} /\ gone' = {}
\* a: 0 continue, 1 do not enter, 2 stop, 3 fail, 4 removed the directory
CanVisit(i) == phase = Running /\ i \in todo /\ Ancestors(up, i) \cap todo = {}
Visit(i, a) ==
  /\ CanVisit(i) /\ done' = done \cup {i} /\ UNCHANGED <<up, want>>
  /\ todo' = (todo \ {i}) \ (IF a \in {1, 4} THEN Below(up, i) ELSE {})
  /\ gone' = gone \cup (IF a \in {1, 4} THEN Below(up, i) ELSE {})
  /\ phase' = CASE a = 2 -> Stopped [] a = 3 -> Failed [] a = 4 -> Broken [] OTHER -> Running
CanClose(ok) == CASE phase = Running -> todo = {} /\ ok
                  [] phase = Stopped -> ok
                  [] OTHER -> ~ok
Close(ok) == phase # Idle /\ CanClose(ok) /\ phase' = Idle /\ UNCHANGED <<up, todo, done, want, gone>>
Init == up = <<>> /\ todo = {} /\ done = {} /\ phase = Idle /\ want = {} /\ gone = {}
Next == \/ done = {} /\ \E u \in Trees : \E W \in SUBSET (1..Len(u)) : \E r \in BOOLEAN : Open(u, W, r)
        \/ \E i \in todo : \E a \in 0..4 : Visit(i, a)
        \/ \E ok \in BOOLEAN : Close(ok)
Spec == Init /\ [][Next]_vars
\* promises
OnlyWanted == done \subseteq want
ParentsFirst == \A i \in done : \A j \in Ancestors(up, i) \cap want : j \in done
Complete == (phase = Running /\ todo = {}) => want \ gone \subseteq done
NotBelow == phase = Running => todo \cap gone = {}
Once == [][\A i \in todo' : phase # Idle => i \notin done']_vars
=============================================================================
