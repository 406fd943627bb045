------------------------------ MODULE Digests ------------------------------
(***************************************************************************)
(* Executable definitions of the message digests, written from the         *)
(* standards (RFC 1321, FIPS 180-4, FIPS 202, RFC 7693, the BLAKE3 paper,  *)
(* RFC 2104), not from the implementation.  A message is a sequence of     *)
(* bytes, a digest a sequence of bytes.                                    *)
(***************************************************************************)
EXTENDS Words, DigestConsts

(* Merkle-Damgard padding: 0x80, zeros, bit length in lenBytes bytes.      *)
\* the bit length of an n byte message as 8 big endian bytes (n < 2^28)
LenBE8(n) == <<0, 0, 0, 0>> \o BytesBE32(<<(n % 8192) * 8, n \div 8192>>)
LenLE8(n) == BytesLE32(<<(n % 8192) * 8, n \div 8192>>) \o <<0, 0, 0, 0>>
PadMD(m, block, lenField) ==
  LET n == Len(m)
      k == (2 * block - 1 - Len(lenField) - (n % block)) % block
  IN m \o <<128>> \o Zeros(k) \o lenField

(* -------------------------------- SHA-256 ----------------------------- *)
Sched256(w0) ==
  FoldLeft(LAMBDA w, t :
     LET a == w[t - 15] b == w[t - 2]
         s0 == Xor32x3(RotrS32(a, 7), RotrS32(Swap32(a), 2), Shr32(a, 3))
         s1 == Xor32x3(RotrS32(Swap32(b), 1), RotrS32(Swap32(b), 3), Shr32(b, 10))
     IN Append(w, Add32x4(w[t - 16], s0, w[t - 7], s1)), w0, [i \in 1..48 |-> i + 16])
Round256(s, kw) ==   \* s = <<a,b,c,d,e,f,g,h>>, kw = <<K_t, W_t>>
  LET a == s[1] e == s[5]
      S1 == Xor32x3(RotrS32(e, 6), RotrS32(e, 11), RotrS32(Swap32(e), 9))
      ch == Xor32(And32(e, s[6]), And32(Not32(e), s[7]))
      t1 == Add32x5(s[8], S1, ch, kw[1], kw[2])
      S0 == Xor32x3(RotrS32(a, 2), RotrS32(a, 13), RotrS32(Swap32(a), 6))
      maj == Xor32x3(And32(a, s[2]), And32(a, s[3]), And32(s[2], s[3]))
  IN <<Add32x3(t1, S0, maj), a, s[2], s[3], Add32(s[4], t1), e, s[6], s[7]>>
Compress256(h, m, off) ==   \* block m[off+1 .. off+64]
  LET w == Sched256([i \in 1..16 |-> BE32(m, off + 4 * i - 3)])
      r == FoldLeft(LAMBDA s, t : Round256(s, <<K256[t], w[t]>>), h, [i \in 1..64 |-> i])
  IN <<Add32(h[1], r[1]), Add32(h[2], r[2]), Add32(h[3], r[3]), Add32(h[4], r[4]),
       Add32(h[5], r[5]), Add32(h[6], r[6]), Add32(h[7], r[7]), Add32(h[8], r[8])>>
Blocks(m, block) == [i \in 1..(Len(m) \div block) |-> (i - 1) * block]
Sha256With(iv, m) ==
  LET p == PadMD(m, 64, LenBE8(Len(m)))
      h == FoldLeft(LAMBDA s, off : Compress256(s, p, off), iv, Blocks(p, 64))
  IN ConcatAll([i \in 1..8 |-> BytesBE32(h[i])])
SHA256(m) == Sha256With(H256, m)
SHA224(m) == SubSeq(Sha256With(H224, m), 1, 28)

(* -------------------------------- SHA-512 ----------------------------- *)
Sched512(w0) ==
  FoldLeft(LAMBDA w, t :
     LET a == w[t - 15] b == w[t - 2]
         s0 == Xor64x3(Rotr64(a, 1), Rotr64(a, 8), Shr64(a, 7))
         s1 == Xor64x3(Rotr64(b, 19), Rotr64(b, 61), Shr64(b, 6))
     IN Append(w, Add64x4(w[t - 16], s0, w[t - 7], s1)), w0, [i \in 1..64 |-> i + 16])
Round512(s, kw) ==
  LET a == s[1] e == s[5]
      S1 == Xor64x3(Rotr64(e, 14), Rotr64(e, 18), Rotr64(e, 41))
      ch == Xor64(And64(e, s[6]), And64(Not64(e), s[7]))
      t1 == Add64x5(s[8], S1, ch, kw[1], kw[2])
      S0 == Xor64x3(Rotr64(a, 28), Rotr64(a, 34), Rotr64(a, 39))
      maj == Xor64x3(And64(a, s[2]), And64(a, s[3]), And64(s[2], s[3]))
  IN <<Add64x3(t1, S0, maj), a, s[2], s[3], Add64(s[4], t1), e, s[6], s[7]>>
Compress512(h, m, off) ==
  LET w == Sched512([i \in 1..16 |-> BE64(m, off + 8 * i - 7)])
      r == FoldLeft(LAMBDA s, t : Round512(s, <<K512[t], w[t]>>), h, [i \in 1..80 |-> i])
  IN <<Add64(h[1], r[1]), Add64(h[2], r[2]), Add64(h[3], r[3]), Add64(h[4], r[4]),
       Add64(h[5], r[5]), Add64(h[6], r[6]), Add64(h[7], r[7]), Add64(h[8], r[8])>>
Sha512Words(iv, m) ==
  LET p == PadMD(m, 128, Zeros(8) \o LenBE8(Len(m)))
  IN FoldLeft(LAMBDA s, off : Compress512(s, p, off), iv, Blocks(p, 128))
Out512(h) == ConcatAll([i \in 1..8 |-> BytesBE64(h[i])])
SHA512(m) == Out512(Sha512Words(H512, m))
SHA384(m) == SubSeq(Out512(Sha512Words(H384, m)), 1, 48)
\* FIPS 180-4 5.3.6: the IVs of SHA-512/t come from SHA-512 with a5.. flipped IV
FlipIV == [i \in 1..8 |-> Xor64(H512[i], <<42405, 42405, 42405, 42405>>)]
H512_224 == TLCEval(Sha512Words(FlipIV, <<83, 72, 65, 45, 53, 49, 50, 47, 50, 50, 52>>))
H512_256 == TLCEval(Sha512Words(FlipIV, <<83, 72, 65, 45, 53, 49, 50, 47, 50, 53, 54>>))
SHA512_224(m) == SubSeq(Out512(Sha512Words(H512_224, m)), 1, 28)
SHA512_256(m) == SubSeq(Out512(Sha512Words(H512_256, m)), 1, 32)

(* -------------------------------- SHA-1 ------------------------------- *)
Sched1(w0) ==
  FoldLeft(LAMBDA w, t : Append(w, Rotr32(Xor32(Xor32x3(w[t - 3], w[t - 8], w[t - 14]), w[t - 16]), 31)),
           w0, [i \in 1..64 |-> i + 16])
K1(t) == CASE t <= 20 -> W32(23170, 31129) [] t <= 40 -> W32(28377, 60321)
           [] t <= 60 -> W32(36635, 48348) [] OTHER -> W32(51810, 49622)
F1(t, b, c, d) == CASE t <= 20 -> Xor32(And32(b, c), And32(Not32(b), d))
                    [] t > 40 /\ t <= 60 -> Xor32x3(And32(b, c), And32(b, d), And32(c, d))
                    [] OTHER -> Xor32x3(b, c, d)
Compress1(h, m, off) ==
  LET w == Sched1([i \in 1..16 |-> BE32(m, off + 4 * i - 3)])
      r == FoldLeft(LAMBDA s, t :
             <<Add32x5(Rotr32(s[1], 27), F1(t, s[2], s[3], s[4]), s[5], K1(t), w[t]),
               s[1], Rotr32(s[2], 2), s[3], s[4]>>, h, [i \in 1..80 |-> i])
  IN [i \in 1..5 |-> Add32(h[i], r[i])]
SHA1(m) ==
  LET p == PadMD(m, 64, LenBE8(Len(m)))
      iv == <<W32(26437, 8961), W32(61389, 43913), W32(39098, 56574), W32(4146, 21622), W32(50130, 57840)>>
      h == FoldLeft(LAMBDA s, off : TLCEval(Compress1(s, p, off)), iv, Blocks(p, 64))
  IN ConcatAll([i \in 1..5 |-> BytesBE32(h[i])])

(* --------------------------------- MD5 -------------------------------- *)
S5 == <<7, 12, 17, 22, 5, 9, 14, 20, 4, 11, 16, 23, 6, 10, 15, 21>>
F5(r, b, c, d) == CASE r = 0 -> Or32(And32(b, c), And32(Not32(b), d))
                    [] r = 1 -> Or32(And32(b, d), And32(c, Not32(d)))
                    [] r = 2 -> Xor32x3(b, c, d)
                    [] r = 3 -> Xor32(c, Or32(b, Not32(d)))
G5(r, i) == CASE r = 0 -> i [] r = 1 -> (5 * i + 1) % 16 [] r = 2 -> (3 * i + 5) % 16 [] r = 3 -> (7 * i) % 16
Compress5(h, m, off) ==
  LET w == TLCEval([i \in 1..16 |-> LE32(m, off + 4 * i - 3)])
      r == FoldLeft(LAMBDA s, t :
             LET i == t - 1 rr == i \div 16
                 f == Add32x4(F5(rr, s[2], s[3], s[4]), s[1], KMD5[t], w[G5(rr, i) + 1])
             IN <<s[4], Add32(s[2], Rotl32(f, S5[4 * rr + (i % 4) + 1])), s[2], s[3]>>, h, [i \in 1..64 |-> i])
  IN <<Add32(h[1], r[1]), Add32(h[2], r[2]), Add32(h[3], r[3]), Add32(h[4], r[4])>>
MD5(m) ==
  LET p == PadMD(m, 64, LenLE8(Len(m)))
      iv == <<W32(26437, 8961), W32(61389, 43913), W32(39098, 56574), W32(4146, 21622)>>
      h == FoldLeft(LAMBDA s, off : Compress5(s, p, off), iv, Blocks(p, 64))
  IN ConcatAll([i \in 1..4 |-> BytesLE32(h[i])])

(* ------------------------------- Keccak ------------------------------- *)
KeccakRound(A, rc) ==
  LET C == <<Xor64(Xor64x3(A[1], A[6], A[11]), Xor64(A[16], A[21])), Xor64(Xor64x3(A[2], A[7], A[12]), Xor64(A[17], A[22])),
             Xor64(Xor64x3(A[3], A[8], A[13]), Xor64(A[18], A[23])), Xor64(Xor64x3(A[4], A[9], A[14]), Xor64(A[19], A[24])),
             Xor64(Xor64x3(A[5], A[10], A[15]), Xor64(A[20], A[25]))>>
      D == <<Xor64(C[5], Rotl64(C[2], 1)), Xor64(C[1], Rotl64(C[3], 1)), Xor64(C[2], Rotl64(C[4], 1)),
             Xor64(C[3], Rotl64(C[5], 1)), Xor64(C[4], Rotl64(C[1], 1))>>
      B == TLCEval([i \in 1..25 |-> LET s == KeccakPiSrc[i] IN Rotl64(Xor64(A[s], D[((s - 1) % 5) + 1]), KeccakRho[s])])
      X == TLCEval([i \in 1..25 |-> LET y == ((i - 1) \div 5) * 5 x == (i - 1) % 5
                     IN Xor64(B[i], And64(Not64(B[y + ((x + 1) % 5) + 1]), B[y + ((x + 2) % 5) + 1]))])
  IN [X EXCEPT ![1] = Xor64(@, rc)]
KeccakF(A) == FoldLeft(LAMBDA a, rc : KeccakRound(a, rc), A, KeccakRC)
KZero == [i \in 1..25 |-> Zero64]
KAbsorb(A, p, off, rate) ==
  KeccakF(TLCEval([i \in 1..25 |-> IF i <= rate \div 8 THEN Xor64(A[i], LE64(p, off + 8 * i - 7)) ELSE A[i]]))
KPad(m, rate, dom) ==   \* domain bits then pad10*1
  LET k == rate - (Len(m) % rate)
  IN IF k = 1 THEN m \o <<dom + 128>> ELSE m \o <<dom>> \o Zeros(k - 2) \o <<128>>
KBytes(A, rate) == ConcatAll([i \in 1..(rate \div 8) |-> BytesLE64(A[i])])
KSqueeze(A, rate, n) ==
  LET extra == (n - 1) \div rate
      r == FoldLeft(LAMBDA s, i : LET b == KeccakF(s[1]) IN <<b, s[2] \o KBytes(b, rate)>>,
                    <<A, KBytes(A, rate)>>, [i \in 1..extra |-> i])
  IN SubSeq(r[2], 1, n)
Sponge(m, rate, dom, n) ==
  LET p == KPad(m, rate, dom)
  IN KSqueeze(FoldLeft(LAMBDA s, off : KAbsorb(s, p, off, rate), KZero, Blocks(p, rate)), rate, n)
SHA3(m, n) == Sponge(m, 200 - 2 * n, 6, n)       \* n = 28, 32, 48, 64
SHAKE128(m, n) == Sponge(m, 168, 31, n)
SHAKE256(m, n) == Sponge(m, 136, 31, n)

(* ------------------------------- BLAKE2b ------------------------------ *)
B2G(v, a, b, c, d, x, y) ==
  LET a1 == Add64x3(v[a], v[b], x)
      d1 == Limbs64(Xor64(v[d], a1), 2)
      c1 == Add64(v[c], d1)
      b1 == Rotr64(Xor64(v[b], c1), 24)
      a2 == Add64x3(a1, b1, y)
      d2 == Limbs64(Xor64(d1, a2), 1)
      c2 == Add64(c1, d2)
      b2 == Rotr64(Xor64(b1, c2), 63)
  IN [v EXCEPT ![a] = a2, ![b] = b2, ![c] = c2, ![d] = d2]
MixIdx == <<<<1, 5, 9, 13>>, <<2, 6, 10, 14>>, <<3, 7, 11, 15>>, <<4, 8, 12, 16>>,
            <<1, 6, 11, 16>>, <<2, 7, 12, 13>>, <<3, 8, 9, 14>>, <<4, 5, 10, 15>>>>
B2Round(v, w, s) ==
  FoldLeft(LAMBDA u, i : B2G(u, MixIdx[i][1], MixIdx[i][2], MixIdx[i][3], MixIdx[i][4], w[s[2 * i - 1]], w[s[2 * i]]),
           v, <<1, 2, 3, 4, 5, 6, 7, 8>>)
B2Compress(h, p, off, t, last) ==   \* t: byte counter (small)
  LET w == TLCEval([i \in 1..16 |-> LE64(p, off + 8 * i - 7)])
      v0 == TLCEval([i \in 1..16 |-> IF i <= 8 THEN h[i] ELSE IF i = 13 THEN Xor64(H512[5], Small64(t))
                     ELSE IF i = 15 /\ last THEN Not64(H512[7]) ELSE H512[i - 8]])
      v == FoldLeft(LAMBDA u, r : B2Round(u, w, Sigma[((r - 1) % 10) + 1]), v0, [i \in 1..12 |-> i])
  IN TLCEval([i \in 1..8 |-> Xor64x3(h[i], v[i], v[i + 8])])
BLAKE2b(key, m, n) ==
  LET kk == Len(key)
      d == (IF kk = 0 THEN <<>> ELSE key \o Zeros(128 - kk)) \o m
      total == Len(d)
      nb == IF total = 0 THEN 1 ELSE (total + 127) \div 128
      p == d \o Zeros(nb * 128 - total)
      h0 == [H512 EXCEPT ![1] = Xor64(@, <<n + 256 * kk, 257, 0, 0>>)]
      h == FoldLeft(LAMBDA s, i : B2Compress(s, p, (i - 1) * 128, IF i = nb THEN total ELSE i * 128, i = nb),
                    h0, [i \in 1..nb |-> i])
  IN SubSeq(ConcatAll([i \in 1..8 |-> BytesLE64(h[i])]), 1, n)

(* -------------------------------- BLAKE3 ------------------------------ *)
B3G(v, a, b, c, d, x, y) ==
  LET a1 == Add32x3(v[a], v[b], x)
      d1 == Swap32(Xor32(v[d], a1))
      c1 == Add32(v[c], d1)
      b1 == RotrS32(Xor32(v[b], c1), 12)
      a2 == Add32x3(a1, b1, y)
      d2 == RotrS32(Xor32(d1, a2), 8)
      c2 == Add32(c1, d2)
      b2 == RotrS32(Xor32(b1, c2), 7)
  IN [v EXCEPT ![a] = a2, ![b] = b2, ![c] = c2, ![d] = d2]
B3Perm == <<3, 7, 4, 11, 8, 1, 5, 14, 2, 12, 13, 6, 10, 15, 16, 9>>
B3Round(v, w) ==
  FoldLeft(LAMBDA u, i : B3G(u, MixIdx[i][1], MixIdx[i][2], MixIdx[i][3], MixIdx[i][4], w[2 * i - 1], w[2 * i]),
           v, <<1, 2, 3, 4, 5, 6, 7, 8>>)
\* 16 output words
B3Compress(cv, w, t, blen, flags) ==
  LET v0 == cv \o <<H256[1], H256[2], H256[3], H256[4], <<t % M16, t \div M16>>, Zero32, <<blen, 0>>, <<flags, 0>>>>
      r == FoldLeft(LAMBDA s, i : <<B3Round(s[1], s[2]), TLCEval([j \in 1..16 |-> s[2][B3Perm[j]]])>>,
                    <<v0, w>>, <<1, 2, 3, 4, 5, 6, 7>>)
      v == r[1]
  IN TLCEval([i \in 1..16 |-> IF i <= 8 THEN Xor32(v[i], v[i + 8]) ELSE Xor32(v[i], cv[i - 8])])
B3Words(p, off) == TLCEval([i \in 1..16 |-> LE32(p, off + 4 * i - 3)])
\* A node is a pending compression; a chunk's node is that of its last block.
B3ChunkNode(key, m, t, flags) ==   \* m: at most 1024 bytes
  LET n == Len(m)
      nb == IF n = 0 THEN 1 ELSE (n + 63) \div 64
      p == m \o Zeros(nb * 64 - n)
      cv == FoldLeft(LAMBDA c, i : SubSeq(B3Compress(c, B3Words(p, (i - 1) * 64), t, 64, flags + IF i = 1 THEN 1 ELSE 0), 1, 8),
                     key, [i \in 1..(nb - 1) |-> i])
  IN [cv |-> cv, w |-> B3Words(p, (nb - 1) * 64), t |-> t, blen |-> n - (nb - 1) * 64,
      flags |-> flags + 2 + IF nb = 1 THEN 1 ELSE 0]
B3CV(nd) == SubSeq(B3Compress(nd.cv, nd.w, nd.t, nd.blen, nd.flags), 1, 8)
\* left subtree: largest power of two chunks strictly less than the total
RECURSIVE B3LeftLen(_, _)
B3LeftLen(n, p) == IF 2 * p * 1024 < n THEN B3LeftLen(n, 2 * p) ELSE p * 1024
RECURSIVE B3Node(_, _, _, _)
B3Node(key, m, t, flags) ==
  IF Len(m) <= 1024 THEN B3ChunkNode(key, m, t, flags)
  ELSE LET k == B3LeftLen(Len(m), 1)
           l == B3CV(B3Node(key, SubSeq(m, 1, k), t, flags))
           r == B3CV(B3Node(key, SubSeq(m, k + 1, Len(m)), t + k \div 1024, flags))
       IN [cv |-> key, w |-> l \o r, t |-> 0, blen |-> 64, flags |-> flags + 4]
B3Root(nd, n) ==
  LET blocks == (n + 63) \div 64
      s == FoldLeft(LAMBDA acc, i : acc \o ConcatAll(LET o == B3Compress(nd.cv, nd.w, i - 1, nd.blen, nd.flags + 8)
                                                     IN [j \in 1..16 |-> BytesLE32(o[j])]),
                    <<>>, [i \in 1..blocks |-> i])
  IN SubSeq(s, 1, n)
B3KeyWords(key) == TLCEval([i \in 1..8 |-> LE32(key, 4 * i - 3)])
BLAKE3(m, n) == B3Root(B3Node(H256, m, 0, 0), n)
BLAKE3Keyed(key, m, n) == B3Root(B3Node(B3KeyWords(key), m, 0, 16), n)
BLAKE3Derive(ctx, m, n) ==
  LET ck == B3Root(B3Node(H256, ctx, 0, 32), 32)
  IN B3Root(B3Node(B3KeyWords(ck), m, 0, 64), n)

(* ------------------------------ dispatch ------------------------------ *)
Digest(alg, m) ==
  CASE alg = "md5" -> MD5(m) [] alg = "sha1" -> SHA1(m)
    [] alg = "sha224" -> SHA224(m) [] alg = "sha256" -> SHA256(m)
    [] alg = "sha384" -> SHA384(m) [] alg = "sha512" -> SHA512(m)
    [] alg = "sha512_224" -> SHA512_224(m) [] alg = "sha512_256" -> SHA512_256(m)
    [] alg = "sha3_224" -> SHA3(m, 28) [] alg = "sha3_256" -> SHA3(m, 32)
    [] alg = "sha3_384" -> SHA3(m, 48) [] alg = "sha3_512" -> SHA3(m, 64)
    [] alg = "blake2b" -> BLAKE2b(<<>>, m, 64) [] alg = "blake2b_256" -> BLAKE2b(<<>>, m, 32)
    [] alg = "blake3" -> BLAKE3(m, 32)
    [] alg = "shake128" -> SHAKE128(m, 32) [] alg = "shake256" -> SHAKE256(m, 64)
BlockSize(alg) ==
  CASE alg \in {"md5", "sha1", "sha224", "sha256", "blake3"} -> 64
    [] alg \in {"sha384", "sha512", "sha512_224", "sha512_256", "blake2b", "blake2b_256"} -> 128
    [] alg = "sha3_224" -> 144 [] alg = "sha3_256" -> 136 [] alg = "sha3_384" -> 104 [] alg = "sha3_512" -> 72
    [] alg = "shake128" -> 168 [] alg = "shake256" -> 136
DigestSize(alg) ==
  CASE alg = "md5" -> 16 [] alg = "sha1" -> 20 [] alg \in {"sha224", "sha512_224", "sha3_224"} -> 28
    [] alg \in {"sha256", "sha512_256", "sha3_256", "blake2b_256", "blake3", "shake128"} -> 32
    [] alg \in {"sha384", "sha3_384"} -> 48 [] alg \in {"sha512", "sha3_512", "blake2b", "shake256"} -> 64
XorByte(s, v) == [i \in 1..Len(s) |-> s[i] ^^ v]
HmacWith(H(_), block, key, m) ==
  LET k0 == IF Len(key) > block THEN H(key) ELSE key
      k == TLCEval(k0 \o Zeros(block - Len(k0)))
  IN H(XorByte(k, 92) \o H(XorByte(k, 54) \o m))
HMAC(alg, key, m) == LET H(x) == Digest(alg, x) IN HmacWith(H, BlockSize(alg), key, m)

(* lowercase hexadecimal *)
HexDigit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
Hex(bs) == FoldLeft(LAMBDA acc, b : acc \o HexDigit[b \div 16 + 1] \o HexDigit[(b % 16) + 1], "", bs)
=============================================================================
