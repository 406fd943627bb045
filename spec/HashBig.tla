------------------------------- MODULE HashBig -------------------------------
(* Hashes with seed 9 of a message of 2^32 + 5 bytes, too long to evaluate in TLC: byte i of the message is
   ((i mod 2^20) * 131 + ((i mod 2^20) div 256) * 7 + 3) mod 256. The published ones were computed by independent
   programs (libxxhash, reference transcriptions in C), the in-house ones are those of this release: 64 bits, then the
   two halves of 128 bits. *)
EXTENDS TLC, Sequences
BigHash ==
  "fnv1a" :> <<"eaa8c5132435a506">>
  @@ "siphash" :> <<"0d7e2d1120a8bcdc">>
  @@ "murmur3" :> <<"e951e2c7b667635d", "e951e2c7b667635d", "7390bba1358d4199">>
  @@ "xxh64" :> <<"c968af04f7910cd2">>
  @@ "xxh3" :> <<"fcd01af03f94035f", "fcd01af03f94035f", "8d00fb01026e2572">>
  @@ "rapidhash" :> <<"60fd2fb5032fd51f">>
  @@ "mumbo" :> <<"91852fd8f58d3d26", "f3231d89061a242b", "661ecade3576e01e">>
  @@ "jumbo" :> <<"91852fd8f58d3d26", "f3231d89061a242b", "661ecade3576e01e">>
  @@ "fambo" :> <<"d3cd8ef8ad212e4f">>
  @@ "dumbo" :> <<"c8600dc121831523">>
  @@ "tembo7_8" :> <<"41a7a7458c845609">>
  @@ "tembo4_4" :> <<"563435dc37a32952">>
  @@ "sip24k5" :> <<"c2792ed7546d470c">>
  @@ "sip13k5" :> <<"672195ae94608e5a">>
HugeOk(r) ==
  /\ r.alg \in DOMAIN BigHash
  /\ r.h = BigHash[r.alg][1]
  /\ ("w1" \in DOMAIN r => Len(BigHash[r.alg]) = 3 /\ r.w1 = BigHash[r.alg][2] /\ r.w2 = BigHash[r.alg][3])
=============================================================================
