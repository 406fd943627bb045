----------------------------- MODULE HashTrace -----------------------------
(* Judges recorded hash calls against the definitions in Hashes.tla.         *)
EXTENDS TraceBase, Hashes, HashBig

AllEq(s, v) == \A i \in 1..Len(s) : s[i] = v
Kd == Small64(5381)                \* the library's default seed
MangleSeed == Small64(12345)
\* hash values of the (user-defined) algorithms the driver derives from
H64(alg, b, s) == CASE alg = "only64" -> Dumbo(b, s)
                    [] alg = "own32" -> Dumbo(b, s)
                    [] alg = "only128" -> Hash128To64(Murmur3(b, s))
                    [] OTHER -> Hash64Of(alg, b, s)
Synth(b, s, F(_, _)) == LET k == IF Len(b) < 8 THEN Len(b) ELSE 8
                        IN <<F(b, s), F(SubSeq(b, k + 1, Len(b)), Xor64x3(s, Golden, Tail64(b, 0, k)))>>
H128(alg, b, s) == CASE alg \in {"only64", "own32"} -> Synth(b, s, Dumbo)
                     [] alg = "only128" -> Murmur3(b, s)
                     [] OTHER -> Hash128Of(alg, b, s)
H32(alg, b, s) == IF alg = "own32" THEN LET h == Shr64(FNV1a(b, s), 7) IN Lo32(h)
                  ELSE Hash64To32(H64(alg, b, s))
DeriveOk(r) ==
  LET h == H64(r.alg, r.m, r.seed)
      w == H128(r.alg, r.m, r.seed)
      t == H32(r.alg, r.m, r.seed)
      d == H64(r.alg, r.m, Kd)
  IN /\ r.h64 = h /\ r.g64 = h /\ r.mh64 = h
     /\ r.h32 = t /\ r.g32 = t
     /\ r.h128 = w /\ r.g128 = w
     /\ r.opr = d /\ r.d64 = d /\ r.e64 = d
     /\ r.d32 = H32(r.alg, r.m, Kd)
     /\ r.mg = Xor64(d, r.mangle) /\ r.gh = Xor64(d, r.mangle)
     /\ r.mgs = Xor64(h, r.mangle)
     /\ r.ghs = Xor64(H64(r.alg, r.m, MangleSeed), r.mangle)
     /\ r.hm = Xor64(r.seed, r.mangle)
CallOk(r) ==
  CASE r.op = "h" -> /\ r.h = Hash64Of(r.alg, r.m, r.seed)
                     /\ (Has(r, "w") => r.w = Hash128Of(r.alg, r.m, r.seed))
    [] r.op = "sip" -> r.h24 = SipHash(2, 4, r.m, r.k0, r.k1) /\ r.h13 = SipHash(1, 3, r.m, r.k0, r.k1)
    [] r.op = "defaults" -> /\ r.fnv1a = FNV1a(r.m, FnvBasis) /\ r.fnv1aA = FNV1a(r.m, FnvBasis)
                            /\ r.xxh64 = XXH64(r.m, Zero64) /\ r.xxh3 = XXH3_64(r.m, Zero64) /\ r.xxh3w = XXH3_128(r.m, Zero64)
                            /\ r.rapidhash = Rapid(r.m, Zero64)
                            /\ r.murmur3 = Murmur3(r.m, Zero64)[1] /\ r.murmur3w = Murmur3(r.m, Zero64)
    [] r.op = "tembo" -> LET h == Tembo(r.lanes, r.consts, r.init, r.m, r.seed) IN r.h = h /\ r.a = h
    [] r.op = "hdefaults" -> /\ r.mumbo = Mumbo64(r.m, Kd) /\ r.mumboA = r.mumbo /\ r.jumbo = r.mumbo /\ r.def = r.mumbo
                             /\ r.jumbow = Jumbo128(r.m, Kd) /\ r.defw = r.jumbow
                             /\ r.fambo = Fambo(r.m, Kd)
                             /\ r.dumbo = Dumbo(r.m, Zero64) /\ r.dumboA = r.dumbo
    [] r.op = "splits" -> Len(r.got) > 0 /\ AllEq(r.got, r.one)
    [] r.op = "huge" -> HugeOk(r)
    [] r.op = "ctstream" -> r.ok
    [] r.op = "derive" -> DeriveOk(r)
    [] r.op = "combine" -> r.c = CombineHashes(r.a, r.b)
    [] r.op = "fold" -> r.f = Hash128To64(r.h) /\ r.t = Hash64To32(r.h[1]) /\ r.str = "0x" \o Hex64(r.h[1]) \o Hex64(r.h[2])
    [] r.op = "same" -> Len(r.v) > 1 /\ AllEq(r.v, r.v[1]) /\ AllEq(r.w, r.w[1])
    [] r.op = "sens" -> r.ignored = <<>> /\ r.seedbits = <<>> /\ r.swaps = <<>> /\ r.longer /\ r.shorter
    [] r.op = "lengths" -> r.total = r.distinct
    [] OTHER -> FALSE
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Accept(CallOk(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
