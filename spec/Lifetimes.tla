----------------------------- MODULE Lifetimes -----------------------------
(***************************************************************************)
(* The life of element objects: alive is the set of places that hold a     *)
(* living object.  Events are <<kind, place, other place>>:                *)
(* 0 construct, 1 copy construct, 2 move construct, 3 copy assign, 4 move  *)
(* assign, 5 destroy, 6 use.  Construction needs a dead place, everything  *)
(* else living objects.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Places
VARIABLES alive, made, gone        \* made, gone: numbers of constructions and destructions
Legal(a, e) ==
  CASE e[1] = 0 -> e[2] \notin a
    [] e[1] \in {1, 2} -> e[2] \notin a /\ e[3] \in a /\ e[3] # e[2]
    [] e[1] \in {3, 4} -> e[2] \in a /\ e[3] \in a
    [] e[1] = 5 -> e[2] \in a
    [] e[1] = 6 -> e[2] \in a
    [] OTHER -> FALSE
Effect(a, e) == IF e[1] \in {0, 1, 2} THEN a \cup {e[2]} ELSE IF e[1] = 5 THEN a \ {e[2]} ELSE a
\* a whole sequence of events: [ok, alive]
Run(a, es) == FoldLeft(LAMBDA st, e : [ok |-> st.ok /\ Legal(st.a, e), a |-> Effect(st.a, e)], [ok |-> TRUE, a |-> a], es)
\* container t (base t * 1000) with n elements of p objects each: exactly its first n * p places are alive
Exact(a, t, n, p) == {x \in a : x >= t * 1000 /\ x < (t + 1) * 1000} = (t * 1000)..(t * 1000 + n * p - 1)

Init == alive = {} /\ made = 0 /\ gone = 0
Do(e) == /\ Legal(alive, e) /\ alive' = Effect(alive, e)
         /\ made' = made + (IF e[1] \in {0, 1, 2} THEN 1 ELSE 0) /\ gone' = gone + (IF e[1] = 5 THEN 1 ELSE 0)
Next == made < 5 /\ \E k \in 0..6 : \E x, y \in Places : Do(<<k, x, y>>)
Spec == Init /\ [][Next]_<<alive, made, gone>>
\* nothing alive at the end means: as many destructions as constructions
Balance == Cardinality(alive) = made - gone /\ gone <= made
=============================================================================
