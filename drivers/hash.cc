// Records what mbo/hash computes. argv: mode seed tier [alg]
#include "mbo/hash/hash.h"
#include "mbo/hash/hash_extra.h"
#include "mbo/hash/hash_mangle.h"
#include "trace.h"
#include <sys/mman.h>
#include <unistd.h>
#include <memory>
#include <algorithm>
using namespace mbo::hash;
using vf::Rec; using vf::Rng; using vf::Pattern;
static uint64_t g_seed; static bool g_thorough; static std::string g_only;
static bool Want(const char* n) { return g_only.empty() || g_only == n; }

using Tembo78 = tembo::Algorithm<7, 8>;
using Tembo44 = tembo::Algorithm<4, 4>;
template<typename F> void ForCanon(F f) {
  if (Want("fnv1a")) f.template operator()<fnv1a::Algorithm>("fnv1a");
  if (Want("siphash")) f.template operator()<siphash::Algorithm>("siphash");
  if (Want("murmur3")) f.template operator()<murmur3::Algorithm>("murmur3");
  if (Want("xxh64")) f.template operator()<xxh64::Algorithm>("xxh64");
  if (Want("xxh3")) f.template operator()<xxh3::Algorithm>("xxh3");
  if (Want("rapidhash")) f.template operator()<rapidhash::Algorithm>("rapidhash");
}
template<typename F> void ForHouse(F f) {
  if (Want("mumbo")) f.template operator()<mumbo::Algorithm>("mumbo");
  if (Want("jumbo")) f.template operator()<jumbo::Algorithm>("jumbo");
  if (Want("fambo")) f.template operator()<fambo::Algorithm>("fambo");
  if (Want("dumbo")) f.template operator()<dumbo::Algorithm>("dumbo");
  if (Want("tembo7_8")) f.template operator()<Tembo78>("tembo7_8");
  if (Want("tembo4_4")) f.template operator()<Tembo44>("tembo4_4");
}
template<typename F> void ForAll(F f) { ForCanon(f); ForHouse(f); }
static Rec& H128(Rec& r, const char* k, const Hash128& h) { return r.raw(k, "[" + [&] { auto q = [](uint64_t v) { std::string s = "["; for (int i = 0; i < 4; ++i) s += (i ? "," : "") + std::to_string((v >> (16 * i)) & 0xFFFF); return s + "]"; }; return q(h.h1) + "," + q(h.h2); }() + "]"); }

static std::vector<uint64_t> Seeds(Rng& r) { return {0, kDefaultSeed, ~0ULL, r.next(), 1, 0x8000000000000000ULL, 0xFFFFFFFFULL, r.next()}; }
template<typename A> void Value(const char* name, const std::string& m, uint64_t seed) {
  Rec r("h");
  r.str("alg", name).bytes("m", m).u64("seed", seed).u64("h", A::GetHash64(m, seed));
  if constexpr (HasGetHash128<A>) H128(r, "w", A::GetHash128(m, seed));
  r.emit();
}
template<typename A> void Values(const char* name, std::vector<size_t> tops) {
  Rng r(g_seed * 7 + name[0] + name[1] * 3);
  const auto seeds = Seeds(r);
  size_t k = 0;
  for (size_t n = 0; n <= tops[0]; ++n) Value<A>(name, Pattern(0, n, g_seed + n), seeds[k++ % seeds.size()]);
  for (uint64_t s : seeds) for (size_t n : {0, 1, 2, 3, 4, 7, 8, 9, 16, 17, 32, 33, 64, 65, 96, 97, 112, 113, 128, 129, 224, 225, 240, 241}) Value<A>(name, Pattern(0, n, s), s);
  for (int kind = 1; kind <= 4; ++kind) for (size_t n : {1, 2, 3, 5, 8, 12, 16, 31, 40, 63, 100, 128, 200, 241, 256}) Value<A>(name, Pattern(kind, n, 0), seeds[k++ % seeds.size()]);
  for (size_t i = 1; i + 1 < tops.size(); i += 2) for (size_t n = tops[i]; n <= tops[i + 1]; ++n) Value<A>(name, Pattern(0, n, g_seed + n), seeds[k++ % seeds.size()]);
  for (int i = 0; i < (g_thorough ? 400 : 30); ++i) Value<A>(name, Pattern(0, r.below(r.chance(70) ? 300 : (g_thorough ? 4000 : 1500)), r.next()), r.next());
  // every single byte value in the short forms
  for (int b = 0; b < 256; b += (g_thorough ? 1 : 15)) for (size_t n = 1; n <= 3; ++n) { std::string m = Pattern(0, n, b); m[r.below(n)] = (char)b; Value<A>(name, m, seeds[1]); }
}

// -------------------------------------------------------------- compile time
template<size_t N> constexpr std::array<char, N> CtMsg() {
  std::array<char, N> a{};
  uint64_t z = N * 77 + 5;
  for (size_t i = 0; i < N; ++i) { z = z * 6364136223846793005ULL + 1442695040888963407ULL; a[i] = (char)(z >> 33); }
  return a;
}
template<typename A, size_t N> void CtOne(const char* name) {
#ifndef VF_NO_CT
  static constexpr auto msg = CtMsg<N>();
  static constexpr uint64_t seed = 0x123456789ABCDEFULL * (N + 1);
  static constexpr uint64_t h = A::GetHash64(std::string_view(msg.data(), N), seed);
  static constexpr Hash128 w = Hasher<A>::GetHash128(std::string_view(msg.data(), N), seed);
  Rec r("h");
  r.str("alg", name).bytes("m", std::string(msg.data(), N)).u64("seed", seed).u64("h", h).num("ct", 1);
  H128(r, "w", w).emit();
#endif
}
template<typename A> void Ct(const char* name) {
  CtOne<A, 0>(name); CtOne<A, 1>(name); CtOne<A, 2>(name); CtOne<A, 3>(name); CtOne<A, 4>(name); CtOne<A, 5>(name); CtOne<A, 7>(name); CtOne<A, 8>(name); CtOne<A, 9>(name);
  CtOne<A, 15>(name); CtOne<A, 16>(name); CtOne<A, 17>(name); CtOne<A, 29>(name); CtOne<A, 47>(name); CtOne<A, 66>(name); CtOne<A, 127>(name); CtOne<A, 135>(name); CtOne<A, 243>(name); CtOne<A, 300>(name);
}
// Defaults of the free functions, and SipHash with explicit keys
static void CanonExtras() {
  Rng r(g_seed + 17);
  for (size_t n = 0; n < 70; ++n) {
    const std::string m = Pattern(0, n, g_seed + n);
    const uint64_t k0 = r.chance(10) ? 0 : r.next(), k1 = r.chance(10) ? ~0ULL : r.next();
    Rec("sip").bytes("m", m).u64("k0", k0).u64("k1", k1).u64("h24", siphash::GetHash64(m, k0, k1)).u64("h13", siphash::GetHash64Sip13(m, k0, k1)).emit();
  }
  for (size_t n : {256, 257, 300, 511, 512}) {
    const std::string m = Pattern(0, n, g_seed + n);
    Rec("sip").bytes("m", m).u64("k0", n).u64("k1", 5).u64("h24", siphash::GetHash64(m, n, 5)).u64("h13", siphash::GetHash64Sip13(m, n, 5)).emit();
  }
  for (size_t n : {0, 1, 5, 8, 20, 40, 130, 250}) {  // default seeds: FNV's offset basis, zero elsewhere
    const std::string m = Pattern(0, n, g_seed + n);
    Rec r1("defaults");
    r1.bytes("m", m).u64("fnv1a", fnv1a::GetHash64(m)).u64("fnv1aA", fnv1a::Algorithm::GetHash64(m)).u64("xxh64", xxh64::GetHash64(m)).u64("xxh3", xxh3::GetHash64(m)).u64("rapidhash", rapidhash::GetHash64(m)).u64("murmur3", murmur3::GetHash64(m));
    H128(r1, "xxh3w", xxh3::GetHash128(m));
    H128(r1, "murmur3w", murmur3::GetHash128(m));
    r1.emit();
  }
}
template<uint64_t L, uint64_t C, bool I> void TemboOne() {
  Rng r(g_seed + L * 100 + C);
  auto one = [&](size_t n) {
    const std::string m = Pattern(0, n, r.next());
    const uint64_t seed = r.chance(20) ? kDefaultSeed : r.next();
    Rec("tembo").num("lanes", L).num("consts", C).boolean("init", I).bytes("m", m).u64("seed", seed).u64("h", tembo::GetHash64<L, C, I>(m, seed)).u64("a", tembo::Algorithm<L, C, I>::GetHash64(m, seed)).emit();
  };
  for (size_t n : {size_t(0), size_t(3), size_t(8), size_t(16), size_t(17), size_t(33), size_t(L * 16 - 1), size_t(L * 16), size_t(L * 16 + 1), size_t(L * 16 + 17), size_t(L * 32 - 1), size_t(L * 32), size_t(L * 48 + 20)}) one(n);
  for (size_t n = 17; n < L * 16; n += 16) one(n);
  if (g_thorough) for (size_t n = 0; n < L * 40; n += 3) one(n);
}
static void Tembos() {
  TemboOne<2, 3, false>(); TemboOne<3, 4, false>(); TemboOne<4, 8, false>(); TemboOne<5, 5, true>(); TemboOne<6, 8, false>(); TemboOne<7, 8, true>(); TemboOne<7, 40, false>(); TemboOne<8, 40, true>();
  TemboOne<8, 8, false>(); TemboOne<9, 16, false>(); TemboOne<10, 11, true>(); TemboOne<11, 40, false>(); TemboOne<12, 7, true>(); TemboOne<13, 40, true>(); TemboOne<14, 14, false>(); TemboOne<15, 33, false>(); TemboOne<16, 40, true>(); TemboOne<16, 16, false>();
#ifndef VF_NO_CT
  static constexpr auto msg = CtMsg<150>();
  static constexpr uint64_t h = tembo::GetHash64<5, 9, true>(std::string_view(msg.data(), 150), 77);
  Rec("tembo").num("lanes", 5).num("consts", 9).boolean("init", true).bytes("m", std::string(msg.data(), 150)).u64("seed", 77).u64("h", h).u64("a", h).emit();
#endif
}
static void HouseExtras() {
  for (size_t n = 0; n < 140; n += 3) {  // default seeds of the free functions, Algorithm defaults
    const std::string m = Pattern(0, n, g_seed + n);
    Rec r1("hdefaults");
    r1.bytes("m", m).u64("mumbo", mumbo::GetHash64(m)).u64("mumboA", mumbo::Algorithm::GetHash64(m)).u64("jumbo", jumbo::GetHash64(m)).u64("fambo", fambo::GetHash64(m)).u64("dumbo", dumbo::GetHash64(m)).u64("dumboA", dumbo::Algorithm::GetHash64(m));
    H128(r1, "jumbow", jumbo::GetHash128(m));
    r1.u64("def", GetHash64(m));
    H128(r1, "defw", GetHash128(m));
    r1.emit();
  }
}

// ------------------------------------------------------------------- streaming
template<typename F> void ForStream(F f) {
  if (Want("mumbo")) f.template operator()<mumbo::Algorithm>("mumbo", 128);
  if (Want("jumbo")) f.template operator()<jumbo::Algorithm>("jumbo", 128);
  if (Want("siphash")) f.template operator()<siphash::Algorithm>("siphash", 8);
  if (Want("xxh64")) f.template operator()<xxh64::Algorithm>("xxh64", 32);
}
static std::string HexU(uint64_t v) { char b[17]; snprintf(b, sizeof b, "%016" PRIx64, v); return b; }
template<typename A> void Splits(const char* name, size_t block) {
  Rng r(g_seed + block);
  auto run = [&](const std::string& m, uint64_t seed, const std::vector<std::vector<size_t>>& cuts) {
    std::vector<std::string> res;
    for (const auto& cs : cuts) {
      Streamer<A> s(seed); size_t at = 0;
      for (size_t c : cs) { s.Update(std::string_view(m).substr(at, c - at)); at = c; }
      s.Update(std::string_view(m).substr(at));
      res.push_back(HexU(s.Finalize()));
    }
    std::string js = "[";
    for (size_t i = 0; i < cuts.size(); ++i) { js += (i ? ",[" : "["); for (size_t j = 0; j < cuts[i].size(); ++j) js += (j ? "," : "") + std::to_string(cuts[i][j]); js += "]"; }
    Rec("splits").str("alg", name).num("n", m.size()).u64("seed", seed).str("one", HexU(A::GetHash64(m, seed))).raw("cuts", js + "]").strs("got", res).emit();
  };
  const auto seeds = Seeds(r);
  const size_t top = block == 128 ? 300 : 3 * block + 40;
  for (size_t n = 0; n <= top; ++n) {
    std::vector<std::vector<size_t>> cuts;
    for (size_t i = 0; i <= n; ++i) cuts.push_back({i});
    run(Pattern(0, n, g_seed + 7), seeds[n % seeds.size()], cuts);
  }
  // all three-way splits of short messages
  for (size_t n = 1; n <= (g_thorough ? 44 : 22); ++n) {
    std::vector<std::vector<size_t>> cuts;
    for (size_t i = 0; i <= n; ++i) for (size_t j = i; j <= n; ++j) cuts.push_back({i, j});
    run(Pattern(0, n, g_seed + n), seeds[n % seeds.size()], cuts);
  }
  for (int i = 0; i < (g_thorough ? 600 : 120); ++i) {
    const size_t n = r.below(4 * block + 60);
    std::vector<std::vector<size_t>> cuts;
    for (int j = 0; j < 10; ++j) {
      std::vector<size_t> c; size_t at = 0;
      while (at < n && c.size() < 300) { size_t step; switch (r.below(7)) { case 0: step = 0; break; case 1: step = 1; break; case 2: step = block; break; case 3: step = r.below(2 * block + 2); break; case 4: step = block - 1 + r.below(3); break; case 5: step = 1 + r.below(20); break; default: step = r.below(block); }
        at = std::min(n, at + step); c.push_back(at); }
      cuts.push_back(c);
    }
    run(Pattern(0, n, r.next()), r.next(), cuts);
  }
}
template<typename A> void Histories(const char* name, size_t block) {
  Rng r(g_seed * 31 + block);
  for (int h = 0; h < (g_thorough ? 400 : 60); ++h) {
    Rec("reset").num("id", h).str("alg", name).emit();
    std::vector<uint64_t> seed(3);
    std::vector<Streamer<A>> st;
    std::vector<std::string> msg(3);
    for (int i = 0; i < 3; ++i) {
      seed[i] = i == 0 ? kDefaultSeed : (r.chance(20) ? 0 : r.next());
      st.push_back(i == 0 ? Streamer<A>() : Streamer<A>(seed[i]));
      Rec("new").num("s", i).u64("seed", seed[i]).emit();
    }
    auto peek = [&](size_t s) { Rec("peek").num("s", s).u64("h", st[s].Finalize()).u64("one", Hasher<A>::GetHash64(msg[s], seed[s])).emit(); };
    const int steps = 8 + r.below(20);
    for (int k = 0; k < steps; ++k) {
      const size_t s = r.below(3), t = r.below(3);
      switch (r.below(8)) {
        case 0: case 1: case 2: case 3: {
          size_t n;
          const size_t fill = msg[s].size() % block;
          switch (r.below(8)) { case 0: n = 0; break; case 1: n = 1; break; case 2: n = block - fill; break; case 3: n = block - fill - 1; break; case 4: n = block - fill + 1; break; case 5: n = 2 * block - fill; break; case 6: n = r.below(20); break; default: n = r.below(2 * block); }
          if (msg[s].size() + n > 5 * block) n = r.below(8);
          const std::string c = Pattern(0, n, r.next());
          st[s].Update(c);
          msg[s] += c;
          Rec("update").num("s", s).bytes("c", c).emit();
          break;
        }
        case 4: if (s != t) { st[t] = st[s]; msg[t] = msg[s]; seed[t] = seed[s]; Rec("copy").num("s", s).num("t", t).emit(); } break;
        case 5: if (r.chance(30)) { seed[s] = r.next(); st[s] = Streamer<A>(seed[s]); msg[s].clear(); Rec("new").num("s", s).u64("seed", seed[s]).emit(); } break;
        default: peek(s); break;
      }
    }
    for (int s = 0; s < 3; ++s) peek(s);
  }
}
static constexpr auto kCtStreamMsg = CtMsg<300>();
template<typename A> constexpr bool CtStreamOk() {
  const std::string_view all(kCtStreamMsg.data(), 300);
  bool ok = true;
  for (size_t n : {0u, 5u, 16u, 17u, 40u, 128u, 150u, 300u}) {
    const auto m = all.substr(0, n);
    for (size_t c : {size_t(0), n / 3, n / 2, n}) {
      Streamer<A> s(n * 12345);
      s.Update(m.substr(0, c));
      (void)s.Finalize();
      s.Update(m.substr(c));
      ok = ok && s.Finalize() == A::GetHash64(m, n * 12345);
    }
  }
  return ok;
}
template<typename A> void CtStream(const char* name) {
#ifdef VF_NO_CT
  const bool ok = CtStreamOk<A>();
#else
  static constexpr bool ok = CtStreamOk<A>();
#endif
  Rec("ctstream").str("alg", name).boolean("ok", ok).emit();
}
struct Mapped {  // n bytes of address space, the same 1 MiB over and over
  char* base; size_t bytes;
  explicit Mapped(size_t n, const std::string& pat) : bytes((n + pat.size() - 1) / pat.size() * pat.size()) {
    int fd = memfd_create("vf", 0);
    if (fd < 0 || write(fd, pat.data(), pat.size()) != (ssize_t)pat.size()) exit(97);
    base = (char*)mmap(nullptr, bytes, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base == MAP_FAILED) exit(97);
    for (size_t p = 0; p < bytes; p += pat.size()) if (mmap(base + p, pat.size(), PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) exit(97);
    close(fd);
  }
  ~Mapped() { munmap(base, bytes); }
};
constexpr uint64_t kHuge = (1ULL << 32) + 5;
static std::string HugePattern() { std::string s(1 << 20, 0); for (size_t i = 0; i < s.size(); ++i) s[i] = (char)(i * 131 + (i >> 8) * 7 + 3); return s; }
template<typename A> void HugeOne(const char* name) {
  Mapped m(kHuge, HugePattern());
  const std::string_view all(m.base, kHuge);
  Rec r("huge");
  r.str("alg", name).str("h", HexU(A::GetHash64(all, 9)));
  if constexpr (HasGetHash128<A>) { const Hash128 w = A::GetHash128(all, 9); r.str("w1", HexU(w.h1)).str("w2", HexU(w.h2)); }
  r.emit();
}
static void HugeSip() {
  Mapped m(kHuge, HugePattern());
  const std::string_view all(m.base, kHuge);
  Rec("huge").str("alg", "sip24k5").str("h", HexU(siphash::GetHash64(all, 9, 5))).emit();
  Rec("huge").str("alg", "sip13k5").str("h", HexU(siphash::GetHash64Sip13(all, 9, 5))).emit();
}
template<typename A> void BigStream(const char* name) {  // beyond 4 GiB the length counter still counts
  if (std::string_view(name) == "jumbo") return;
  const size_t page = 1 << 20, pages = 4097;
  Mapped m(pages * page, Pattern(0, page, 3));
  const std::string_view all(m.base, pages * page - 5);
  Streamer<A> s(9);
  std::string_view v = all;
  while (!v.empty()) { size_t k = std::min(v.size(), page * 3 - 7); s.Update(v.substr(0, k)); v.remove_prefix(k); }
  Rec("splits").str("alg", name).num("n", 2147483647).u64("seed", 9).str("one", HexU(A::GetHash64(all, 9))).raw("cuts", "[]").strs("got", std::vector<std::string>{HexU(s.Finalize())}).emit();
}

// --------------------------------------------------------------------- derived
struct Only64 { static constexpr uint64_t GetHash64(std::string_view d, uint64_t s) noexcept { return dumbo::GetHash64(d, s); } };
struct Only128 { static constexpr Hash128 GetHash128(std::string_view d, uint64_t s) noexcept { return murmur3::GetHash128(d, s); } };
struct Own32 : Only64 { static constexpr uint32_t GetHash32(std::string_view d, uint64_t s) noexcept { return (uint32_t)(fnv1a::GetHash64(d, s) >> 7); } };
struct Sink { std::string s; void Append(std::string_view v) { s += v; } void Append(size_t n, char c) { s.append(n, c); } };
template<typename A> void Derive(const char* name, const std::string& m, uint64_t seed) {
  Rec r("derive");
  r.str("alg", name).bytes("m", m).u64("seed", seed).u64("h64", Hasher<A>::GetHash64(m, seed)).u64("g64", GetHash64<A>(m, seed)).u32("h32", Hasher<A>::GetHash32(m, seed)).u32("g32", GetHash32<A>(m, seed));
  H128(r, "h128", Hasher<A>::GetHash128(m, seed));
  H128(r, "g128", GetHash128<A>(m, seed));
  r.u64("opr", Hasher<A>{}(m)).u64("d64", Hasher<A>::GetHash64(m)).u64("e64", GetHash64<A>(m)).u32("d32", GetHash32<A>(m));
  r.u64("mg", MangledHasher<A>{}(m)).u64("mgs", MangledHasher<A>::GetHash(m, seed)).u64("gh", GetHash<A>(m)).u64("ghs", GetHash<A, 12345>(m)).u64("mh64", MangledHasher<A>::GetHash64(m, seed));
  r.u64("mangle", kMangleConstant).u64("hm", HashMangle(seed));
  r.emit();
}
template<typename A> void DeriveAll(const char* name) {
  Rng r(g_seed + 3);
  const auto seeds = Seeds(r);
  for (size_t n = 0; n <= (g_thorough ? 140 : 34); ++n) Derive<A>(name, Pattern(0, n, r.next()), seeds[n % seeds.size()]);
  for (int i = 0; i < 8; ++i) Derive<A>(name, Pattern(1 + i % 4, r.below(40), i), r.next());
}
static void Combine() {
  Rng r(g_seed);
  const auto seeds = Seeds(r);
  for (uint64_t a : seeds) for (uint64_t b : seeds) Rec("combine").u64("a", a).u64("b", b).u64("c", CombineHashes(a, b)).emit();
  for (int i = 0; i < 300; ++i) {
    const uint64_t a = r.next() >> r.below(64), b = r.next() >> r.below(64);
    Rec("combine").u64("a", a).u64("b", b).u64("c", CombineHashes(a, b)).emit();
    Rec q("fold"); Sink s; const Hash128 h{a, b};
    AbslStringify(s, h);
    H128(q, "h", h).u64("f", Hash128To64(h)).u32("t", Hash64To32(a)).str("str", s.s).emit();
  }
}

// -------------------------------------------------------- functions of the bytes
struct Guarded {  // two readable pages between inaccessible ones
  char* base; static constexpr size_t kP = 4096;
  Guarded() { base = (char*)mmap(nullptr, 4 * kP, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (base == MAP_FAILED || mprotect(base + kP, 2 * kP, PROT_READ | PROT_WRITE)) exit(97); }
  char* lo() { return base + kP; } char* hi() { return base + 3 * kP; }
};
template<typename A> void Pure(const char* name) {
  static Guarded g;
  Rng r(g_seed + 21);
  const auto seeds = Seeds(r);
  for (size_t n = 0; n <= 600; n += (n < 300 ? 1 : 1 + r.below(12))) {
    const std::string m = Pattern(0, n, r.next());
    const uint64_t seed = seeds[n % seeds.size()];
    std::vector<std::string> v, w;
    auto add = [&](std::string_view s) {
      v.push_back(HexU(A::GetHash64(s, seed)));
      const Hash128 h = Hasher<A>::GetHash128(s, seed);
      w.push_back(HexU(h.h1) + HexU(h.h2));
    };
    add(m);
    memset(g.lo(), 0xA5, 2 * g.kP);
    memcpy(g.hi() - n, m.data(), n); add({g.hi() - n, n});          // nothing readable behind
    memset(g.lo(), 0x5A, 2 * g.kP);
    memcpy(g.lo(), m.data(), n); add({g.lo(), n});                  // nothing readable before
    for (size_t al = 1; al < 16; ++al) { memset(g.lo(), (int)r.next(), 2 * g.kP); memcpy(g.lo() + 1024 + al, m.data(), n); add({g.lo() + 1024 + al, n}); }
    Rec("same").str("alg", name).num("n", n).strs("v", v).strs("w", w).emit();
  }
}
template<typename A> void Sensitive(const char* name) {
  Rng r(g_seed + 22);
  for (size_t n = 1; n <= 530; n += (n < 280 ? 1 : 1 + r.below(9))) {
    std::string m = Pattern(0, n, r.next());
    const uint64_t seed = r.chance(30) ? kDefaultSeed : r.next();
    const uint64_t h0 = A::GetHash64(m, seed); const Hash128 w0 = Hasher<A>::GetHash128(m, seed);
    std::vector<size_t> same;   // positions whose change goes unnoticed
    for (size_t i = 0; i < n; ++i) {
      bool noticed = true;
      for (int bit : {0, 7, (int)r.below(8)}) {
        m[i] ^= (char)(1 << bit);
        noticed = noticed && A::GetHash64(m, seed) != h0 && !(Hasher<A>::GetHash128(m, seed) == w0);
        m[i] ^= (char)(1 << bit);
      }
      if (!noticed) same.push_back(i);
    }
    std::vector<size_t> seedbits;
    for (int b = 0; b < 64; ++b) if (A::GetHash64(m, seed ^ (1ULL << b)) == h0 || Hasher<A>::GetHash128(m, seed ^ (1ULL << b)) == w0) seedbits.push_back(b);
    std::string longer = m + std::string(1, '\0'), swapped = m;
    std::vector<size_t> swaps;
    for (size_t i = 0; i + 1 < n; ++i) if (swapped[i] != swapped[i + 1]) { std::swap(swapped[i], swapped[i + 1]); if (A::GetHash64(swapped, seed) == h0) swaps.push_back(i); std::swap(swapped[i], swapped[i + 1]); }
    Rec("sens").str("alg", name).num("n", n).nums("ignored", same).nums("seedbits", seedbits).nums("swaps", swaps)
        .boolean("longer", A::GetHash64(longer, seed) != h0 && !(Hasher<A>::GetHash128(longer, seed) == w0))
        .boolean("shorter", A::GetHash64(std::string_view(m).substr(0, n - 1), seed) != h0).emit();
  }
  // strings of equal bytes differ by their length
  for (int kind : {1, 2, 4}) {
    std::vector<std::string> v;
    for (size_t n = 0; n <= 400; ++n) v.push_back(HexU(A::GetHash64(Pattern(kind, n, 0), kDefaultSeed)));
    std::vector<std::string> u = v; std::sort(u.begin(), u.end()); u.erase(std::unique(u.begin(), u.end()), u.end());
    Rec("lengths").str("alg", name).num("kind", kind).num("total", v.size()).num("distinct", u.size()).emit();
  }
}

int main(int argc, char** argv) {
  const std::string mode = argc > 1 ? argv[1] : "";
  g_seed = argc > 2 ? strtoull(argv[2], nullptr, 10) : 1;
  g_thorough = argc > 3 && std::string(argv[3]) == "thorough";
  g_only = argc > 4 ? argv[4] : "";
#ifdef VF_values
  if (mode == "canon") {
    ForCanon([&]<typename A>(const char* n) { Values<A>(n, std::string_view(n) == "xxh3" ? std::vector<size_t>{260, 500, 516, 1020, 1030, 1085, 1092, 2047, 2051} : std::vector<size_t>{260, 334, 340}); Ct<A>(n); });
    if (Want("extra")) CanonExtras();
  } else if (mode == "house") {
    ForHouse([&]<typename A>(const char* n) { Values<A>(n, {260, 383, 386, 511, 530}); Ct<A>(n); });
    if (Want("extra")) { HouseExtras(); Tembos(); }
  }
#endif
#ifdef VF_stream
  if (mode == "splits") ForStream([&]<typename A>(const char* n, size_t b) { Splits<A>(n, b); CtStream<A>(n); });
  if (mode == "hist") ForStream([&]<typename A>(const char* n, size_t b) { Histories<A>(n, b); });
  if (mode == "big") ForStream([&]<typename A>(const char* n, size_t b) { BigStream<A>(n); });
#endif
#ifdef VF_huge
  if (mode == "huge") { ForAll([&]<typename A>(const char* n) { HugeOne<A>(n); }); if (Want("sip")) HugeSip(); }
#endif
#ifdef VF_derive
  if (mode == "derive") { ForAll([&]<typename A>(const char* n) { DeriveAll<A>(n); }); if (Want("extra")) { Combine(); DeriveAll<Only64>("only64"); DeriveAll<Only128>("only128"); DeriveAll<Own32>("own32"); } }
#endif
#ifdef VF_pure
  if (mode == "pure") ForAll([&]<typename A>(const char* n) { Pure<A>(n); Sensitive<A>(n); });
#endif
  fflush(stdout);
  return 0;
}
