---------------------------- MODULE DigestStream ----------------------------
(***************************************************************************)
(* Streaming digests.  The specified behaviour: a stream denotes the       *)
(* concatenation msg of its updates, and finalizing it is a pure function  *)
(* of msg.  The machine below is shaped like the implementations: whole    *)
(* blocks are absorbed into done, a partial block waits in buf (eagerly    *)
(* flushed for MD5/SHA/SHA-3, lazily -- only when more input arrives --    *)
(* for BLAKE2b/BLAKE3).  TLC shows for every history of new/update/copy/   *)
(* peek within the bounds that the two agree: what finalize sees is a      *)
(* function of msg alone, whatever the chunking.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANTS Streams, B, Lazy, Bytes, MaxLen, MaxChunk
VARIABLES msg, done, buf
vars == <<msg, done, buf>>

Chunks == UNION {[1..n -> Bytes] : n \in 0..MaxChunk}
Empty == [s \in Streams |-> <<>>]
Init == msg = Empty /\ done = Empty /\ buf = Empty
New(s) == /\ msg' = [msg EXCEPT ![s] = <<>>]
          /\ done' = [done EXCEPT ![s] = <<>>] /\ buf' = [buf EXCEPT ![s] = <<>>]
\* absorb one byte as the implementations' loops do
Absorb(st, b) ==
  IF Lazy THEN IF Len(st[2]) = B THEN <<st[1] \o st[2], <<b>>>> ELSE <<st[1], Append(st[2], b)>>
  ELSE LET f == Append(st[2], b) IN IF Len(f) = B THEN <<st[1] \o f, <<>>>> ELSE <<st[1], f>>
Update(s, c) ==
  LET st == FoldLeft(Absorb, <<done[s], buf[s]>>, c)
  IN /\ msg' = [msg EXCEPT ![s] = @ \o c]
     /\ done' = [done EXCEPT ![s] = st[1]] /\ buf' = [buf EXCEPT ![s] = st[2]]
Copy(s, t) == /\ msg' = [msg EXCEPT ![t] = msg[s]]
              /\ done' = [done EXCEPT ![t] = done[s]] /\ buf' = [buf EXCEPT ![t] = buf[s]]
\* finalize: observes, changes nothing
Peek(s) == UNCHANGED vars
Next == \E s \in Streams :
          \/ New(s) \/ Peek(s)
          \/ \E c \in Chunks : Len(msg[s]) + Len(c) <= MaxLen /\ Update(s, c)
          \/ \E t \in Streams \ {s} : Copy(s, t)
Spec == Init /\ [][Next]_vars

TypeOK == \A s \in Streams : Len(buf[s]) <= B /\ Len(done[s]) % B = 0
NoByteLostOrReordered == \A s \in Streams : done[s] \o buf[s] = msg[s]
\* what finalize sees (processed part, pending part) depends on msg only
Pending(m) == IF m = <<>> THEN 0
              ELSE IF Lazy THEN ((Len(m) - 1) % B) + 1 ELSE Len(m) % B
FinalizeIsFunctionOfMessage == \A s \in Streams : Len(buf[s]) = Pending(msg[s])
=============================================================================
