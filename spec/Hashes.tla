------------------------------- MODULE Hashes -------------------------------
(***************************************************************************)
(* Executable definitions of the non-cryptographic hashes.  FNV-1a,        *)
(* SipHash, MurmurHash3, XXH64, XXH3 and rapidhash follow their published  *)
(* reference definitions; mumbo/jumbo, tembo, fambo and dumbo are the      *)
(* definitions of this release.  A message is a sequence of byte values;   *)
(* 64-bit words are four 16-bit limbs; offsets o are 0-based.              *)
(***************************************************************************)
EXTENDS Words, HashConsts

L64(b, o) == LE64(b, o + 1)
L32(b, o) == From32(LE32(b, o + 1))
LenW(n) == Small64(n)
\* up to 8 bytes as a little-endian word
Tail64(b, o, n) == LET B(i) == IF i < n THEN b[o + i + 1] ELSE 0
                   IN <<B(0) + 256 * B(1), B(2) + 256 * B(3), B(4) + 256 * B(5), B(6) + 256 * B(7)>>
XorShr(x, n) == Xor64(x, Shr64(x, n))
Fmix64(v) == XorShr(Mul64(XorShr(Mul64(XorShr(v, 33), FmixM1), 33), FmixM2), 33)
\* fold over the offsets start, start+step, ... that satisfy o + win <= end
Blocks(Op(_, _), acc, o, step, last) ==
  IF o > last THEN acc ELSE FoldLeft(Op, acc, [k \in 1..((last - o) \div step + 1) |-> o + (k - 1) * step])

(* -------------------------------- FNV-1a ------------------------------- *)
FNV1a(b, seed) == FoldLeft(LAMBDA h, c : Mul64(<<h[1] ^^ c, h[2], h[3], h[4]>>, FnvPrime), seed, b)

(* ------------------------------- SipHash ------------------------------- *)
SipRound(v) ==
  LET a0 == Add64(v[1], v[2])
      a1 == Xor64(Rotl64(v[2], 13), a0)
      a0r == Rotl64(a0, 32)
      a2 == Add64(v[3], v[4])
      a3 == Xor64(Rotl64(v[4], 16), a2)
      b0 == Add64(a0r, a3)
      b3 == Xor64(Rotl64(a3, 21), b0)
      b2 == Add64(a2, a1)
      b1 == Xor64(Rotl64(a1, 17), b2)
  IN <<b0, b1, Rotl64(b2, 32), b3>>
RECURSIVE SipRounds(_, _)
SipRounds(v, n) == IF n = 0 THEN v ELSE SipRounds(SipRound(v), n - 1)
SipAbsorb(v, w, c) == LET u == SipRounds(<<v[1], v[2], v[3], Xor64(v[4], w)>>, c)
                      IN <<Xor64(u[1], w), u[2], u[3], u[4]>>
SipHash(c, d, b, k0, k1) ==
  LET v0 == <<Xor64(Sip0, k0), Xor64(Sip1, k1), Xor64(Sip2, k0), Xor64(Sip3, k1)>>
      n == Len(b)
      v == Blocks(LAMBDA s, o : SipAbsorb(s, L64(b, o), c), v0, 0, 8, n - 8)
      r == n % 8
      t == Tail64(b, n - r, r)
      w == SipAbsorb(v, <<t[1], t[2], t[3], t[4] + 256 * (n % 256)>>, c)
      f == SipRounds(<<w[1], w[2], Xor64(w[3], <<255, 0, 0, 0>>), w[4]>>, d)
  IN Xor64(Xor64(f[1], f[2]), Xor64(f[3], f[4]))

(* ------------------------- MurmurHash3 x64 128 ------------------------- *)
MurK1(k) == Mul64(Rotl64(Mul64(k, Mur1), 31), Mur2)
MurK2(k) == Mul64(Rotl64(Mul64(k, Mur2), 33), Mur1)
Five == <<5, 0, 0, 0>>
Murmur3(b, seed) ==
  LET n == Len(b)
      r == n % 16
      t == n - r
      st == Blocks(LAMBDA h, o :
              LET h1 == Add64(Mul64(Add64(Rotl64(Xor64(h[1], MurK1(L64(b, o))), 27), h[2]), Five), MurA)
                  h2 == Add64(Mul64(Add64(Rotl64(Xor64(h[2], MurK2(L64(b, o + 8))), 31), h1), Five), MurB)
              IN <<h1, h2>>, <<seed, seed>>, 0, 16, n - 16)
      g2 == IF r > 8 THEN Xor64(st[2], MurK2(Tail64(b, t + 8, r - 8))) ELSE st[2]
      g1 == IF r > 0 THEN Xor64(st[1], MurK1(Tail64(b, t, IF r < 8 THEN r ELSE 8))) ELSE st[1]
      x1 == Add64(Xor64(g1, LenW(n)), Xor64(g2, LenW(n)))
      x2 == Add64(Xor64(g2, LenW(n)), x1)
      f1 == Fmix64(x1)
      f2 == Fmix64(x2)
      y1 == Add64(f1, f2)
  IN <<y1, Add64(f2, y1)>>

(* -------------------------------- XXH64 -------------------------------- *)
XRound(acc, w) == Mul64(Rotl64(Add64(acc, Mul64(w, XP2)), 31), XP1)
XMerge(h, lane) == Add64(Mul64(Xor64(h, XRound(Zero64, lane)), XP1), XP4)
XAvalanche(h) == XorShr(Mul64(XorShr(Mul64(XorShr(h, 33), XP2), 29), XP3), 32)
XXH64(b, seed) ==
  LET n == Len(b)
      a0 == <<Add64x3(seed, XP1, XP2), Add64(seed, XP2), seed, Sub64(seed, XP1)>>
      a == Blocks(LAMBDA s, o : <<XRound(s[1], L64(b, o)), XRound(s[2], L64(b, o + 8)),
                                  XRound(s[3], L64(b, o + 16)), XRound(s[4], L64(b, o + 24))>>, a0, 0, 32, n - 32)
      h0 == IF n >= 32
            THEN XMerge(XMerge(XMerge(XMerge(Add64x4(Rotl64(a[1], 1), Rotl64(a[2], 7), Rotl64(a[3], 12), Rotl64(a[4], 18)),
                                             a[1]), a[2]), a[3]), a[4])
            ELSE Add64(seed, XP5)
      s8 == n - (n % 32)
      h1 == Blocks(LAMBDA h, o : Add64(Mul64(Rotl64(Xor64(h, XRound(Zero64, L64(b, o))), 27), XP1), XP4),
                   Add64(h0, LenW(n)), s8, 8, n - 8)
      s4 == n - (n % 8)
      h2 == IF n - s4 >= 4 THEN Add64(Mul64(Rotl64(Xor64(h1, Mul64(L32(b, s4), XP1)), 23), XP2), XP3) ELSE h1
      s1 == n - (n % 4)
      h3 == Blocks(LAMBDA h, o : Mul64(Rotl64(Xor64(h, Mul64(<<b[o + 1], 0, 0, 0>>, XP5)), 11), XP1), h2, s1, 1, n - 1)
  IN XAvalanche(h3)

(* --------------------------------- XXH3 -------------------------------- *)
S64(o) == L64(XXH3Secret, o)
XX3Avalanche(h) == XorShr(Mul64(XorShr(h, 37), XMx1), 32)
Rrmxmx(h, n) == LET a == Xor64(h, Xor64(Rotl64(h, 49), Rotl64(h, 24)))
                    c == Mul64(a, XMx2)
                    d == Xor64(c, Add64(Shr64(c, 35), LenW(n)))
                IN XorShr(Mul64(d, XMx2), 28)
\* byte-swapped low half in the high half
SeedSwap(seed) == LET s == Bswap32(Lo32(seed)) IN Xor64(seed, <<0, 0, s[1], s[2]>>)
Comb3(b, n) == <<b[n] + 256 * n, b[1] + 256 * b[n \div 2 + 1]>>
Mix16(b, o, s, so, seed) == MulFold64(Xor64(L64(b, o), Add64(L64(s, so), seed)), Xor64(L64(b, o + 8), Sub64(L64(s, so + 8), seed)))
X3Lane0 == <<XP32_3, XP1, XP2, XP3, XP4, XP32_2, XP5, XP32_1>>
Mul32s(x) == Mul64(<<x[1], x[2], 0, 0>>, <<x[3], x[4], 0, 0>>)
Accumulate(acc, b, o, s, so) ==
  LET D == <<L64(b, o), L64(b, o + 8), L64(b, o + 16), L64(b, o + 24), L64(b, o + 32), L64(b, o + 40), L64(b, o + 48), L64(b, o + 56)>>
      F(i) == Add64x3(acc[i], Mul32s(Xor64(D[i], L64(s, so + 8 * (i - 1)))), D[IF i % 2 = 1 THEN i + 1 ELSE i - 1])
  IN <<F(1), F(2), F(3), F(4), F(5), F(6), F(7), F(8)>>
Scramble(acc, s) ==
  LET F(i) == Mul64(Xor64(XorShr(acc[i], 47), L64(s, 128 + 8 * (i - 1))), XP32_1)
  IN <<F(1), F(2), F(3), F(4), F(5), F(6), F(7), F(8)>>
MergeAccs(acc, s, so, start) ==
  LET G(i) == MulFold64(Xor64(acc[2 * i - 1], L64(s, so + 16 * (i - 1))), Xor64(acc[2 * i], L64(s, so + 16 * (i - 1) + 8)))
  IN XX3Avalanche(Add64x5(start, G(1), G(2), G(3), G(4)))
CustomSecret(seed) == ConcatAll([i \in 1..12 |-> BytesLE64(Add64(S64(16 * (i - 1)), seed)) \o BytesLE64(Sub64(S64(16 * (i - 1) + 8), seed))])
X3LongAcc(b, s) ==
  LET n == Len(b)
      nb == (n - 1) \div 1024
      St(acc, o, blk) == Accumulate(acc, b, o, s, 8 * ((o - blk) \div 64))
      Blk(acc, blk) == Scramble(Blocks(LAMBDA a, o : St(a, o, blk), acc, blk, 64, blk + 1023 - 63), s)
      full == Blocks(Blk, X3Lane0, 0, 1024, 1024 * nb - 1)
      base == 1024 * nb
      stripes == ((n - 1) - base) \div 64
      part == Blocks(LAMBDA a, o : St(a, o, base), full, base, 64, base + 64 * stripes - 1)
  IN Accumulate(part, b, n - 64, s, 192 - 64 - 7)
X3Secret(seed) == IF seed = Zero64 THEN XXH3Secret ELSE TLCEval(CustomSecret(seed))

XXH3_64(b, seed) ==
  LET n == Len(b)
      M(o, so) == Mix16(b, o, XXH3Secret, so, seed)
      lenp == Mul64(LenW(n), XP1)
  IN CASE n = 0 -> XAvalanche(Xor64x3(seed, S64(56), S64(64)))
       [] n \in 1..3 -> XAvalanche(Xor64(From32(Comb3(b, n)), Add64(Xor64(L32(XXH3Secret, 0), L32(XXH3Secret, 4)), seed)))
       [] n \in 4..8 -> LET sd == SeedSwap(seed)
                            in1 == L32(b, 0) in2 == L32(b, n - 4)
                            w == Join64(<<in2[1], in2[2]>>, <<in1[1], in1[2]>>)
                        IN Rrmxmx(Xor64(w, Sub64(Xor64(S64(8), S64(16)), sd)), n)
       [] n \in 9..16 -> LET lo == Xor64(L64(b, 0), Add64(Xor64(S64(24), S64(32)), seed))
                             hi == Xor64(L64(b, n - 8), Sub64(Xor64(S64(40), S64(48)), seed))
                         IN XX3Avalanche(Add64x4(LenW(n), Bswap64(lo), hi, MulFold64(lo, hi)))
       [] n \in 17..128 ->
            LET a1 == Add64x3(lenp, M(0, 0), M(n - 16, 16))
                a2 == IF n > 32 THEN Add64x3(a1, M(16, 32), M(n - 32, 48)) ELSE a1
                a3 == IF n > 64 THEN Add64x3(a2, M(32, 64), M(n - 48, 80)) ELSE a2
                a4 == IF n > 96 THEN Add64x3(a3, M(48, 96), M(n - 64, 112)) ELSE a3
            IN XX3Avalanche(a4)
       [] n \in 129..240 ->
            LET a == XX3Avalanche(Blocks(LAMBDA x, o : Add64(x, M(o, o)), lenp, 0, 16, 112))
                e == Blocks(LAMBDA x, o : Add64(x, M(o, o - 128 + 3)), M(n - 16, 136 - 17), 128, 16, n - 16)
            IN XX3Avalanche(Add64(a, e))
       [] OTHER -> LET s == X3Secret(seed) IN MergeAccs(X3LongAcc(b, s), s, 11, lenp)

XXH3_128(b, seed) ==
  LET n == Len(b)
      lenp == Mul64(LenW(n), XP1)
      Mix32(a, o1, o2, so, sd) ==
        <<Xor64(Add64(a[1], Mix16(b, o1, XXH3Secret, so, sd)), Add64(L64(b, o2), L64(b, o2 + 8))),
          Xor64(Add64(a[2], Mix16(b, o2, XXH3Secret, so + 16, sd)), Add64(L64(b, o1), L64(b, o1 + 8)))>>
      Final(a) == <<XX3Avalanche(Add64(a[1], a[2])),
                    Neg64(XX3Avalanche(Add64x3(Mul64(a[1], XP1), Mul64(a[2], XP4), Mul64(Sub64(LenW(n), seed), XP2))))>>
  IN CASE n = 0 -> <<XAvalanche(Xor64x3(seed, S64(64), S64(72))), XAvalanche(Xor64x3(seed, S64(80), S64(88)))>>
       [] n \in 1..3 ->
            LET cl == Comb3(b, n)
                ch == Rotl32(Bswap32(cl), 13)
            IN <<XAvalanche(Xor64(From32(cl), Add64(Xor64(L32(XXH3Secret, 0), L32(XXH3Secret, 4)), seed))),
                 XAvalanche(Xor64(From32(ch), Sub64(Xor64(L32(XXH3Secret, 8), L32(XXH3Secret, 12)), seed)))>>
       [] n \in 4..8 ->
            LET sd == SeedSwap(seed)
                lo == L32(b, 0) hi == L32(b, n - 4)
                w == Join64(<<lo[1], lo[2]>>, <<hi[1], hi[2]>>)
                m == MulFull(Xor64(w, Add64(Xor64(S64(16), S64(24)), sd)), Add64(XP1, LenW(4 * n)))
                m2 == Add64(Hi64(m), Shl64(Lo64(m), 1))
                m1 == XorShr(Mul64(XorShr(Xor64(Lo64(m), Shr64(m2, 3)), 35), XMx2), 28)
            IN <<m1, XX3Avalanche(m2)>>
       [] n \in 9..16 ->
            LET fl == Sub64(Xor64(S64(32), S64(40)), seed)
                fh == Add64(Xor64(S64(48), S64(56)), seed)
                lo == L64(b, 0)
                hi == L64(b, n - 8)
                m == MulFull(Xor64x3(lo, hi, fl), XP1)
                q1 == Add64(Lo64(m), Shl64(LenW(n - 1), 54))
                hf == Xor64(hi, fh)
                q2 == Add64x3(Hi64(m), hf, Mul64(<<hf[1], hf[2], 0, 0>>, XP32_2m1))
                r == MulFull(Xor64(q1, Bswap64(q2)), XP2)
            IN <<XX3Avalanche(Lo64(r)), XX3Avalanche(Add64(Hi64(r), Mul64(q2, XP2)))>>
       [] n \in 17..128 ->
            LET a0 == <<lenp, Zero64>>
                a4 == IF n > 96 THEN Mix32(a0, 48, n - 64, 96, seed) ELSE a0
                a3 == IF n > 64 THEN Mix32(a4, 32, n - 48, 64, seed) ELSE a4
                a2 == IF n > 32 THEN Mix32(a3, 16, n - 32, 32, seed) ELSE a3
            IN Final(Mix32(a2, 0, n - 16, 0, seed))
       [] n \in 129..240 ->
            LET a == Blocks(LAMBDA x, o : Mix32(x, o, o + 16, o, seed), <<lenp, Zero64>>, 0, 32, 96)
                c == <<XX3Avalanche(a[1]), XX3Avalanche(a[2])>>
                e == Blocks(LAMBDA x, o : Mix32(x, o, o + 16, 3 + o - 128, seed), c, 128, 32, n - 32)
            IN Final(Mix32(e, n - 16, n - 32, 136 - 17 - 16, Neg64(seed)))
       [] OTHER -> LET s == X3Secret(seed)
                       acc == TLCEval(X3LongAcc(b, s))
                   IN <<MergeAccs(acc, s, 11, lenp), MergeAccs(acc, s, 192 - 64 - 11, Not64(Mul64(LenW(n), XP2)))>>

(* ------------------------------ rapidhash V3 --------------------------- *)
RS(i) == RapidSecret[i + 1]
Rapid(b, seed0) ==
  LET n == Len(b)
      seed == Xor64(seed0, MulFold64(Xor64(seed0, RS(2)), RS(1)))
      Mx(o, k, s) == MulFold64(Xor64(L64(b, o), RS(k)), Xor64(L64(b, o + 8), s))
      Finish(a, c, s, rem) == LET m == MulFull(Xor64(a, RS(1)), Xor64(c, s))
                              IN MulFold64(Xor64(Lo64(m), RS(7)), Xor64x3(Hi64(m), RS(1), LenW(rem)))
      Small == IF n >= 4
               THEN LET s == Xor64(seed, LenW(n))
                    IN IF n >= 8 THEN Finish(L64(b, 0), L64(b, n - 8), s, n) ELSE Finish(L32(b, 0), L32(b, n - 4), s, n)
               ELSE IF n > 0 THEN Finish(<<b[n], 0, 8192 * (b[1] % 8), b[1] \div 8>>, <<b[n \div 2 + 1], 0, 0, 0>>, seed, n)
               ELSE Finish(Zero64, Zero64, seed, 0)
      \* seven lanes of 16 bytes while more than 112 bytes remain
      Seven(s, o) == <<Mx(o, 0, s[1]), Mx(o + 16, 1, s[2]), Mx(o + 32, 2, s[3]), Mx(o + 48, 3, s[4]), Mx(o + 64, 4, s[5]),
                       Mx(o + 80, 5, s[6]), Mx(o + 96, 6, s[7])>>
      start == <<seed, seed, seed, seed, seed, seed, seed>>
      lanes == Blocks(Seven, start, 0, 112, n - 113)
      merged == Xor64(Xor64x3(lanes[1], lanes[2], lanes[7]), Xor64(Xor64(lanes[3], lanes[4]), Xor64(lanes[5], lanes[6])))
      at == IF n > 112 THEN 112 * ((n - 1) \div 112) ELSE 0
      rem == n - at
      K == <<2, 2, 1, 1, 2, 1>>
      s6 == Blocks(LAMBDA s, o : Mx(at + o, K[o \div 16 + 1], s), IF n > 112 THEN merged ELSE seed, 0, 16, rem - 17)
      Long == Finish(Xor64(L64(b, n - 16), LenW(rem)), L64(b, n - 8), s6, rem)
  IN IF n <= 16 THEN Small ELSE Long

(* ------------------------- in-house: shared small input ---------------- *)
\* first byte * 2^45
Hi45(x) == <<0, 0, 8192 * (x % 8), x \div 8>>
SmallAB(b) ==
  LET n == Len(b) IN
  CASE n = 0 -> <<Zero64, Zero64>>
    [] n = 1 -> LET v == Xor64(Hi45(b[1]), <<b[1], 0, 0, 0>>) IN <<v, v>>
    [] n = 2 -> LET v == Xor64(Hi45(b[1]), <<256 * b[2] + b[1], 0, 0, 0>>) IN <<v, v>>
    [] n = 3 -> LET v == Xor64(Hi45(b[1]), <<256 * b[2] + b[3], 0, 0, 0>>) IN <<v, v>>
    [] n \in 4..7 -> <<L32(b, 0), L32(b, n - 4)>>
    [] OTHER -> <<L64(b, 0), L64(b, n - 8)>>

(* ----------------------------- mumbo / jumbo --------------------------- *)
MS(i) == MumboSecret[i + 1]
MumFinish(x, y, s, n, i, j, k) == LET m == MulFull(Xor64x3(x, MS(i), LenW(n)), Xor64(y, s))
                                  IN MulFold64(Xor64x3(Lo64(m), MS(j), LenW(n)), Xor64(Hi64(m), MS(k)))
MF(b, o, k, s) == MulFold64(Xor64(L64(b, o), k), Xor64(L64(b, o + 8), s))
Mumbo64(b, seed0) ==
  LET n == Len(b)
      seed == MulFold64(Xor64(seed0, MS(0)), MS(1))
      c0 == <<Xor64(seed, MS(8)), Xor64(seed, MS(9)), Xor64(seed, MS(10)), Xor64(seed, MS(11)),
              Xor64(seed, MS(12)), Xor64(seed, MS(13)), Xor64(seed, MS(14)), Xor64(seed, MS(15))>>
      c == Blocks(LAMBDA q, o : <<MF(b, o, MS(4), q[1]), MF(b, o + 16, MS(5), q[2]), MF(b, o + 32, MS(6), q[3]), MF(b, o + 48, MS(7), q[4]),
                                  MF(b, o + 64, MS(8), q[5]), MF(b, o + 80, MS(9), q[6]), MF(b, o + 96, MS(10), q[7]), MF(b, o + 112, MS(11), q[8])>>,
                  c0, 0, 128, n - 128)
      s1 == IF n >= 128 THEN FoldLeft(Xor64, Zero64, c) ELSE seed
      at == n - (n % 128)
      s2 == Blocks(LAMBDA s, o : MF(b, o, MS(1), s), s1, at, 16, n - 17)
      ab == SmallAB(b)
  IN IF n <= 16 THEN MumFinish(ab[1], ab[2], seed, n, 2, 3, 1)
     ELSE MumFinish(L64(b, n - 16), L64(b, n - 8), s2, n, 2, 3, 1)
Jumbo128(b, seed0) ==
  LET n == Len(b)
      p1 == MulFold64(Xor64(seed0, MS(2)), MS(3))
      p2 == MulFold64(Xor64(seed0, MS(8)), MS(9))
      c0 == <<Xor64(p1, MS(8)), Xor64(p1, MS(9)), Xor64(p2, MS(10)), Xor64(p2, MS(11))>>
      c == Blocks(LAMBDA q, o : <<MF(b, o, MS(4), q[1]), MF(b, o + 16, MS(5), q[2]), MF(b, o + 32, MS(6), q[3]), MF(b, o + 48, MS(7), q[4])>>,
                  c0, 0, 64, n - 64)
      st1 == IF n >= 64
             THEN <<Xor64(Xor64(c[1], c[2]), Xor64(c[3], c[4])),
                    Xor64(MulFold64(Xor64(c[1], MS(12)), Xor64(c[3], MS(13))), MulFold64(Xor64(c[2], MS(14)), Xor64(c[4], MS(15))))>>
             ELSE <<p1, p2>>
      at == n - (n % 64)
      st2 == Blocks(LAMBDA s, o : <<MF(b, o, MS(1), s[1]), MulFold64(Xor64(L64(b, o + 8), MS(9)), Xor64(L64(b, o), s[2]))>>, st1, at, 16, n - 17)
      ab == IF n <= 16 THEN SmallAB(b) ELSE <<L64(b, n - 16), L64(b, n - 8)>>
      s == IF n <= 16 THEN <<p1, p2>> ELSE st2
  IN <<MumFinish(ab[1], ab[2], s[1], n, 2, 3, 1), MumFinish(ab[2], ab[1], s[2], n, 10, 11, 9)>>

(* --------------------------------- tembo ------------------------------- *)
TS(i) == TemboSecret[i + 1]
\* lanes are merged pairwise: 0/2, 4/6, 8/10, 12/14 on the left, 1/3, 5/7, ... on the right; a lane without partner is xored
RECURSIVE PairUp(_, _)
PairUp(v, i) == IF i > Len(v) THEN Zero64
                ELSE IF i = Len(v) THEN v[i]
                ELSE Xor64(MulFold64(v[i], v[i + 1]), PairUp(v, i + 2))
EveryOther(v, i) == [k \in 1..((Len(v) - i) \div 2 + 1) |-> v[i + 2 * (k - 1)]]
TemboMerge(v) ==
  LET n == Len(v) IN
  CASE n = 2 -> MulFold64(v[1], v[2])
    [] n = 3 -> MulFold64(Xor64(v[1], v[3]), v[2])
    [] n = 4 -> MulFold64(Xor64(v[1], v[3]), Xor64(v[2], v[4]))
    [] n = 5 -> MulFold64(Xor64(MulFold64(v[1], v[3]), v[5]), Xor64(v[2], v[4]))
    [] n = 8 -> MulFold64(PairUp(EveryOther(v, 1), 1), Xor64(PairUp(EveryOther(v, 2), 1), TS(3)))
    [] n = 9 -> MulFold64(PairUp(EveryOther(SubSeq(v, 1, 8), 1), 1), Xor64(PairUp(EveryOther(SubSeq(v, 1, 8), 2), 1), v[9]))
    [] n = 12 -> MulFold64(Xor64(PairUp(EveryOther(v, 1), 1), TS(2)), PairUp(EveryOther(v, 2), 1))
    [] n = 16 -> MulFold64(Xor64(PairUp(EveryOther(v, 1), 1), TS(1)), PairUp(EveryOther(v, 2), 1))
    [] OTHER -> MulFold64(PairUp(EveryOther(v, 1), 1), PairUp(EveryOther(v, 2), 1))
Tembo(lanes, consts, init, b, seed0) ==
  LET n == Len(b)
      TK(i) == TS(i % consts)
      seed == Xor64(seed0, MulFold64(Xor64(seed0, TS(0)), TS(1)))
      ab == SmallAB(b)
      m == MulFull(Xor64(ab[1], TS(2)), Xor64(ab[2], seed))
      small == MulFold64(Xor64(Lo64(m), TK(3)), Xor64(Hi64(m), LenW(n)))
      win == 16 * lanes
      l0 == [i \in 1..lanes |-> LET s == IF i = 1 THEN Xor64(seed, LenW(n)) ELSE seed
                                IN IF init THEN Xor64(s, TK(2 * lanes + i - 1)) ELSE s]
      ls == Blocks(LAMBDA q, o : [i \in 1..lanes |-> MF(b, o + 16 * (i - 1), TK(i - 1), q[i])], TLCEval(l0), 0, win, n - win)
      s1 == IF n >= win THEN TemboMerge(ls) ELSE seed
      at == IF n >= win THEN n - (n % win) ELSE 0
      rem == n - at
      \* the first three secrets of the remainder are taken in reverse order
      LK(i) == TK(lanes + (CASE i = 0 -> 2 [] i = 1 -> 1 [] i = 2 -> 0 [] OTHER -> i))
      s2 == Blocks(LAMBDA s, o : MF(b, at + o, LK(o \div 16), s), s1, 0, 16, rem - 17)
      f == MulFull(Xor64(L64(b, n - 16), TS(0)), Xor64(L64(b, n - 8), s2))
  IN IF n <= 16 THEN small ELSE MulFold64(Xor64(Lo64(f), TS(1)), Xor64x3(Hi64(f), TS(2), LenW(rem)))

(* --------------------------------- fambo ------------------------------- *)
Fambo(b, seed0) ==
  LET n == Len(b)
      seed == Xor64(seed0, MulFold64(Xor64(seed0, TS(0)), TS(1)))
      ab == SmallAB(b)
      m == MulFull(Xor64(ab[1], TS(2)), Xor64(ab[2], seed))
      small == MulFold64(Xor64(Lo64(m), TS(1)), Xor64(Hi64(m), LenW(n)))
      ls == Blocks(LAMBDA q, o : <<MF(b, o, TS(0), q[1]), MF(b, o + 16, TS(1), q[2]), MF(b, o + 32, TS(2), q[3]), MF(b, o + 48, TS(3), q[4])>>,
                   <<Xor64(seed, LenW(n)), seed, seed, seed>>, 0, 64, n - 64)
      s1 == IF n >= 64 THEN MulFold64(Xor64(ls[1], ls[2]), Xor64(ls[3], ls[4])) ELSE seed
      rem == n % 64
      at == n - rem
      K == <<2, 1, 2>>
      s2 == Blocks(LAMBDA s, o : MF(b, at + o, TS(K[o \div 16 + 1]), s), s1, 0, 16, rem - 17)
      f == MulFull(Xor64(L64(b, n - 16), TS(0)), Xor64(L64(b, n - 8), s2))
  IN IF n <= 16 THEN small ELSE MulFold64(Xor64(Lo64(f), TS(1)), Xor64x3(Hi64(f), TS(2), LenW(rem)))

(* --------------------------------- dumbo ------------------------------- *)
Dumbo(b, seed) ==
  LET n == Len(b)
      Step(h, w) == MulFold64(Xor64(w, DumboWord), Xor64(h, DumboState))
      full == IF n = 0 THEN 0 ELSE 8 * ((n - 1) \div 8)
      h1 == Blocks(LAMBDA h, o : Step(h, L64(b, o)), Xor64(seed, DumboInit), 0, 8, full - 1)
      h2 == Step(h1, Tail64(b, full, n - full))
      m == MulFull(Xor64x3(h2, DumboWord, LenW(n)), Xor64(seed, DumboState))
  IN MulFold64(Xor64x3(Lo64(m), DumboState, LenW(n)), Xor64x3(Hi64(m), DumboWord, seed))

(* ------------------------- by name, as mbo's Algorithm ------------------ *)
Hash64Of(alg, b, seed) ==
  CASE alg = "fnv1a" -> FNV1a(b, seed)
    [] alg = "siphash" -> SipHash(2, 4, b, seed, Fmix64(seed))
    [] alg = "murmur3" -> Murmur3(b, seed)[1]
    [] alg = "xxh64" -> XXH64(b, seed)
    [] alg = "xxh3" -> XXH3_64(b, seed)
    [] alg = "rapidhash" -> Rapid(b, seed)
    [] alg = "mumbo" -> Mumbo64(b, seed)
    [] alg = "jumbo" -> Mumbo64(b, seed)
    [] alg = "fambo" -> Fambo(b, seed)
    [] alg = "dumbo" -> Dumbo(b, seed)
    [] alg = "tembo7_8" -> Tembo(7, 8, FALSE, b, seed)
    [] alg = "tembo4_4" -> Tembo(4, 4, FALSE, b, seed)
Native128 == {"murmur3", "xxh3", "mumbo", "jumbo"}
(* ------------------------------ derived forms --------------------------- *)
Hash64To32(h) == Xor32(Lo32(h), Hi32(h))
Hash128To64(h) == Fmix64(Xor64(h[1], Add64(h[2], Golden)))
CombineHashes(x, y) == Fmix64(Xor64(x, Add64x4(y, Golden, Shl64(x, 6), Shr64(x, 2))))
Hash128Of(alg, b, seed) ==
  CASE alg = "murmur3" -> Murmur3(b, seed)
    [] alg = "xxh3" -> XXH3_128(b, seed)
    [] alg \in {"mumbo", "jumbo"} -> Jumbo128(b, seed)
    [] OTHER -> LET k == IF Len(b) < 8 THEN Len(b) ELSE 8
                IN <<Hash64Of(alg, b, seed),
                     Hash64Of(alg, SubSeq(b, k + 1, Len(b)), Xor64x3(seed, Golden, Tail64(b, 0, k)))>>
HexDigits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
HexLimb(x) == HexDigits[(x \div 4096) + 1] \o HexDigits[((x \div 256) % 16) + 1] \o HexDigits[((x \div 16) % 16) + 1] \o HexDigits[(x % 16) + 1]
Hex64(w) == HexLimb(w[4]) \o HexLimb(w[3]) \o HexLimb(w[2]) \o HexLimb(w[1])
=============================================================================
