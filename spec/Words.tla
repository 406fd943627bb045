------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Unsigned 32-bit and 64-bit machine words for TLC, whose integers are    *)
(* 32-bit signed.  A 32-bit word is a pair <<lo, hi>> and a 64-bit word a  *)
(* 4-tuple <<l0, l1, l2, l3>> of 16-bit limbs, least significant first.    *)
(* Everything is modulo 2^32 / 2^64 as in the standards.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise, SequencesExt, TLC

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
P2(n) == Pow2[n + 1]
M16 == 65536

(* ------------------------------- 32 bit ------------------------------- *)
W32(hi, lo) == <<lo, hi>>
Zero32 == <<0, 0>>
Xor32(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
And32(a, b) == <<a[1] & b[1], a[2] & b[2]>>
Or32(a, b) == <<a[1] | b[1], a[2] | b[2]>>
Not32(a) == <<65535 - a[1], 65535 - a[2]>>
Xor32x3(a, b, c) == <<(a[1] ^^ b[1]) ^^ c[1], (a[2] ^^ b[2]) ^^ c[2]>>
Add32(a, b) == LET s == a[1] + b[1] IN <<s % M16, (a[2] + b[2] + s \div M16) % M16>>
Add32x3(a, b, c) == LET s == a[1] + b[1] + c[1]
                    IN <<s % M16, (a[2] + b[2] + c[2] + s \div M16) % M16>>
Add32x4(a, b, c, d) == LET s == a[1] + b[1] + c[1] + d[1]
                       IN <<s % M16, (a[2] + b[2] + c[2] + d[2] + s \div M16) % M16>>
Add32x5(a, b, c, d, e) == LET s == a[1] + b[1] + c[1] + d[1] + e[1]
                          IN <<s % M16, (a[2] + b[2] + c[2] + d[2] + e[2] + s \div M16) % M16>>
\* Rotate right by n in 1..15, 16, 17..31
RotrS32(a, n) == LET p == P2(n) q == P2(16 - n)
                 IN <<a[1] \div p + (a[2] % p) * q, a[2] \div p + (a[1] % p) * q>>
Swap32(a) == <<a[2], a[1]>>
Rotr32(a, n) == IF n = 0 THEN a ELSE IF n < 16 THEN RotrS32(a, n) ELSE IF n = 16 THEN Swap32(a)
                ELSE RotrS32(Swap32(a), n - 16)
Rotl32(a, n) == Rotr32(a, (32 - n) % 32)
Shr32(a, n) == IF n = 0 THEN a ELSE IF n < 16 THEN LET p == P2(n) IN <<a[1] \div p + (a[2] % p) * P2(16 - n), a[2] \div p>>
               ELSE <<a[2] \div P2(n - 16), 0>>
\* bytes b[i..i+3]
LE32(b, i) == <<b[i] + 256 * b[i + 1], b[i + 2] + 256 * b[i + 3]>>
BE32(b, i) == <<b[i + 3] + 256 * b[i + 2], b[i + 1] + 256 * b[i]>>
BytesLE32(a) == <<a[1] % 256, a[1] \div 256, a[2] % 256, a[2] \div 256>>
BytesBE32(a) == <<a[2] \div 256, a[2] % 256, a[1] \div 256, a[1] % 256>>

(* ------------------------------- 64 bit ------------------------------- *)
Zero64 == <<0, 0, 0, 0>>
Small64(n) == <<n % M16, n \div M16, 0, 0>>    \* n < 2^31
Xor64(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
Xor64x3(a, b, c) == <<(a[1] ^^ b[1]) ^^ c[1], (a[2] ^^ b[2]) ^^ c[2], (a[3] ^^ b[3]) ^^ c[3], (a[4] ^^ b[4]) ^^ c[4]>>
And64(a, b) == <<a[1] & b[1], a[2] & b[2], a[3] & b[3], a[4] & b[4]>>
Or64(a, b) == <<a[1] | b[1], a[2] | b[2], a[3] | b[3], a[4] | b[4]>>
Not64(a) == <<65535 - a[1], 65535 - a[2], 65535 - a[3], 65535 - a[4]>>
Carry64(s1, s2, s3, s4) ==  \* limbs with pending carries (each < 2^31 - 2^16)
  LET t2 == s2 + s1 \div M16
      t3 == s3 + t2 \div M16
      t4 == s4 + t3 \div M16
  IN <<s1 % M16, t2 % M16, t3 % M16, t4 % M16>>
Add64(a, b) == Carry64(a[1] + b[1], a[2] + b[2], a[3] + b[3], a[4] + b[4])
Add64x3(a, b, c) == Carry64(a[1] + b[1] + c[1], a[2] + b[2] + c[2], a[3] + b[3] + c[3], a[4] + b[4] + c[4])
Add64x4(a, b, c, d) == Carry64(a[1] + b[1] + c[1] + d[1], a[2] + b[2] + c[2] + d[2],
                               a[3] + b[3] + c[3] + d[3], a[4] + b[4] + c[4] + d[4])
Add64x5(a, b, c, d, e) == Carry64(a[1] + b[1] + c[1] + d[1] + e[1], a[2] + b[2] + c[2] + d[2] + e[2],
                               a[3] + b[3] + c[3] + d[3] + e[3], a[4] + b[4] + c[4] + d[4] + e[4])
Neg64(a) == Add64(Not64(a), <<1, 0, 0, 0>>)
Sub64(a, b) == Add64(a, Neg64(b))
Limbs64(a, q) == CASE q = 0 -> a [] q = 1 -> <<a[2], a[3], a[4], a[1]>>
                   [] q = 2 -> <<a[3], a[4], a[1], a[2]>> [] q = 3 -> <<a[4], a[1], a[2], a[3]>>
RotrS64(a, n) == IF n = 0 THEN a ELSE
                 LET p == P2(n) q == P2(16 - n)
                 IN <<a[1] \div p + (a[2] % p) * q, a[2] \div p + (a[3] % p) * q,
                      a[3] \div p + (a[4] % p) * q, a[4] \div p + (a[1] % p) * q>>
Rotr64(a, n) == RotrS64(Limbs64(a, n \div 16), n % 16)
Rotl64(a, n) == Rotr64(a, (64 - n) % 64)
ShrLimbs64(a, q) == CASE q = 0 -> a [] q = 1 -> <<a[2], a[3], a[4], 0>>
                      [] q = 2 -> <<a[3], a[4], 0, 0>> [] q = 3 -> <<a[4], 0, 0, 0>>
ShrS64(a, n) == IF n = 0 THEN a ELSE
                LET p == P2(n) q == P2(16 - n)
                IN <<a[1] \div p + (a[2] % p) * q, a[2] \div p + (a[3] % p) * q,
                     a[3] \div p + (a[4] % p) * q, a[4] \div p>>
Shr64(a, n) == ShrS64(ShrLimbs64(a, n \div 16), n % 16)
ShlLimbs64(a, q) == CASE q = 0 -> a [] q = 1 -> <<0, a[1], a[2], a[3]>>
                      [] q = 2 -> <<0, 0, a[1], a[2]>> [] q = 3 -> <<0, 0, 0, a[1]>>
ShlS64(a, n) == IF n = 0 THEN a ELSE
                LET q == P2(n) p == P2(16 - n)
                IN <<(a[1] % p) * q, (a[2] % p) * q + a[1] \div p,
                     (a[3] % p) * q + a[2] \div p, (a[4] % p) * q + a[3] \div p>>
Shl64(a, n) == ShlS64(ShlLimbs64(a, n \div 16), n % 16)
LE64(b, i) == <<b[i] + 256 * b[i + 1], b[i + 2] + 256 * b[i + 3], b[i + 4] + 256 * b[i + 5], b[i + 6] + 256 * b[i + 7]>>
BE64(b, i) == <<b[i + 7] + 256 * b[i + 6], b[i + 5] + 256 * b[i + 4], b[i + 3] + 256 * b[i + 2], b[i + 1] + 256 * b[i]>>
BytesLE64(a) == <<a[1] % 256, a[1] \div 256, a[2] % 256, a[2] \div 256, a[3] % 256, a[3] \div 256, a[4] % 256, a[4] \div 256>>
BytesBE64(a) == <<a[4] \div 256, a[4] % 256, a[3] \div 256, a[3] % 256, a[2] \div 256, a[2] % 256, a[1] \div 256, a[1] % 256>>
Bswap16(x) == (x % 256) * 256 + x \div 256
Bswap64(a) == <<Bswap16(a[4]), Bswap16(a[3]), Bswap16(a[2]), Bswap16(a[1])>>
Bswap32(a) == <<Bswap16(a[2]), Bswap16(a[1])>>
From32(w) == <<w[1], w[2], 0, 0>>
Lo32(a) == <<a[1], a[2]>>
Hi32(a) == <<a[3], a[4]>>
Join64(lo, hi) == <<lo[1], lo[2], hi[1], hi[2]>>

(* 16 x 16 -> 32 product as <<lo16, hi16>> without exceeding 2^31. *)
Mul16(x, y) ==
  LET xl == x % 256  xh == x \div 256
      p0 == xl * y           \* < 2^24
      p1 == xh * y           \* < 2^24
      s == p0 + (p1 % 256) * 256          \* < 2^25
  IN <<s % M16, s \div M16 + p1 \div 256>>

(* Full 64 x 64 -> 128 product: 8 limbs, least significant first. *)
MulFull(a, b) ==
  LET m11 == Mul16(a[1], b[1]) m12 == Mul16(a[1], b[2]) m13 == Mul16(a[1], b[3]) m14 == Mul16(a[1], b[4])
      m21 == Mul16(a[2], b[1]) m22 == Mul16(a[2], b[2]) m23 == Mul16(a[2], b[3]) m24 == Mul16(a[2], b[4])
      m31 == Mul16(a[3], b[1]) m32 == Mul16(a[3], b[2]) m33 == Mul16(a[3], b[3]) m34 == Mul16(a[3], b[4])
      m41 == Mul16(a[4], b[1]) m42 == Mul16(a[4], b[2]) m43 == Mul16(a[4], b[3]) m44 == Mul16(a[4], b[4])
      s1 == m11[1]
      s2 == m11[2] + m12[1] + m21[1]
      s3 == m12[2] + m21[2] + m13[1] + m22[1] + m31[1] + s2 \div M16
      s4 == m13[2] + m22[2] + m31[2] + m14[1] + m23[1] + m32[1] + m41[1] + s3 \div M16
      s5 == m14[2] + m23[2] + m32[2] + m41[2] + m24[1] + m33[1] + m42[1] + s4 \div M16
      s6 == m24[2] + m33[2] + m42[2] + m34[1] + m43[1] + s5 \div M16
      s7 == m34[2] + m43[2] + m44[1] + s6 \div M16
      s8 == m44[2] + s7 \div M16
  IN <<s1, s2 % M16, s3 % M16, s4 % M16, s5 % M16, s6 % M16, s7 % M16, s8 % M16>>
Lo64(m) == <<m[1], m[2], m[3], m[4]>>
Hi64(m) == <<m[5], m[6], m[7], m[8]>>
Mul64(a, b) ==
  LET m11 == Mul16(a[1], b[1]) m12 == Mul16(a[1], b[2]) m13 == Mul16(a[1], b[3]) m14 == Mul16(a[1], b[4])
      m21 == Mul16(a[2], b[1]) m22 == Mul16(a[2], b[2]) m23 == Mul16(a[2], b[3])
      m31 == Mul16(a[3], b[1]) m32 == Mul16(a[3], b[2])
      m41 == Mul16(a[4], b[1])
  IN Carry64(m11[1], m11[2] + m12[1] + m21[1], m12[2] + m21[2] + m13[1] + m22[1] + m31[1],
             m13[2] + m22[2] + m31[2] + m14[1] + m23[1] + m32[1] + m41[1])
MulFold64(a, b) == LET m == MulFull(a, b) IN Xor64(Lo64(m), Hi64(m))

(* ------------------------------ sequences ----------------------------- *)
Zeros(n) == [i \in 1..n |-> 0]
Slice(s, i, n) == SubSeq(s, i, i + n - 1)      \* n elements from 1-based i
ConcatAll(ss) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)
=============================================================================
