---------------------------- MODULE DigestTrace ----------------------------
(* Judges recorded digest calls against the standards' definitions.          *)
EXTENDS TraceBase, Digests, DigestBig

AllEq(s, v) == \A i \in 1..Len(s) : s[i] = v
CallOk(r) ==
  CASE r.op = "d" -> LET h == Hex(Digest(r.alg, r.m)) IN r.hex = h /\ Hex(r.out) = h /\ r.free = h
    [] r.op = "shake" -> LET h == Hex(IF r.alg = "shake128" THEN SHAKE128(r.m, r.n) ELSE SHAKE256(r.m, r.n))
                         IN r.hex = h /\ r.alt = h
    [] r.op = "b2k" -> LET h == Hex(BLAKE2b(r.k, r.m, r.n)) IN r.hex = h /\ r.stream = h
    [] r.op = "b3" -> r.hex = Hex(CASE r.mode = "xof" -> BLAKE3(r.m, r.n)
                                    [] r.mode = "keyed" -> BLAKE3Keyed(r.k, r.m, r.n)
                                    [] r.mode = "derive" -> BLAKE3Derive(r.k, r.m, r.n))
    [] r.op = "hmac" -> LET h == Hex(HMAC(r.alg, r.k, r.m))
                        IN r.one = h /\ r.full = h /\ r.again = h /\ r.bw = h /\ r.mid = r.premid /\ r.cp = r.mid
    [] r.op = "hpad" -> r.short = r.padded
    [] r.op = "hlong" -> r.long = r.hashed
    [] r.op = "big" -> /\ (<<r.alg, r.n>> \in DOMAIN BigDigest => r.hex = BigDigest[<<r.alg, r.n>>])
                       /\ (Has(r, "stream") => r.stream = r.hex)
    [] r.op = "splits" -> AllEq(r.got, r.one)
    [] r.op = "raw" -> r.a = r.one /\ r.b = r.one /\ r.p = r.pre
    [] r.op = "ctstream" -> r.ok
    [] OTHER -> FALSE
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Accept(CallOk(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
