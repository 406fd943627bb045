// Records what mbo/digest computes. argv: mode seed tier shard nshards
#include "mbo/digest/digest.h"
#include "trace.h"
#include <sys/mman.h>
#include <unistd.h>
#include <map>
using namespace mbo::digest;
using vf::Rec; using vf::Rng; using vf::Pattern;

static uint64_t g_seed; static bool g_thorough;

template<typename A> std::string_view View(const A& a) { return std::string_view((const char*)a.data(), a.size()); }
template<typename A> std::string Hex(const A& a) { return vf::HexOf(a.data(), a.size()); }

// ---------------------------------------------------------------- algorithms
template<typename F> void ForMd(F f) {
  f.template operator()<md5::Algorithm>("md5"); f.template operator()<sha1::Algorithm>("sha1");
  f.template operator()<sha224::Algorithm>("sha224"); f.template operator()<sha256::Algorithm>("sha256");
  f.template operator()<sha384::Algorithm>("sha384"); f.template operator()<sha512::Algorithm>("sha512");
  f.template operator()<sha512_224::Algorithm>("sha512_224"); f.template operator()<sha512_256::Algorithm>("sha512_256");
}
template<typename F> void ForSha3(F f) {
  f.template operator()<sha3_224::Algorithm>("sha3_224"); f.template operator()<sha3_256::Algorithm>("sha3_256");
  f.template operator()<sha3_384::Algorithm>("sha3_384"); f.template operator()<sha3_512::Algorithm>("sha3_512");
}
template<typename F> void ForBlake(F f) {
  f.template operator()<blake2b::Algorithm>("blake2b"); f.template operator()<blake2b_256::Algorithm>("blake2b_256");
  f.template operator()<blake3::Algorithm>("blake3");
}
template<typename F> void ForAll(F f) {
  ForMd(f); ForSha3(f); ForBlake(f);
  f.template operator()<shake128::Algorithm<32>>("shake128"); f.template operator()<shake256::Algorithm<64>>("shake256");
}
// the free functions of each namespace
static std::string Free(std::string_view alg, std::string_view m) {
#define X(n) if (alg == #n) return Hex(n::Digest(m));
  X(md5) X(sha1) X(sha224) X(sha256) X(sha384) X(sha512) X(sha512_224) X(sha512_256)
  X(sha3_224) X(sha3_256) X(sha3_384) X(sha3_512) X(blake2b) X(blake2b_256) X(blake3)
#undef X
  if (alg == "shake128") return Hex(shake128::Digest<32>(m));
  if (alg == "shake256") return Hex(shake256::Digest<64>(m));
  abort();
}

template<typename Algo> void One(const char* name, const std::string& m) {
  const auto d = Algo::Digest(m);
  Rec("d").str("alg", name).bytes("m", m).bytes("out", View(d)).str("hex", ToHexString(d)).str("free", Free(name, m)).emit();
}
template<typename Algo> void Values(const char* name, size_t extra_blocks) {
  const size_t block = Algo::kBlockSize;
  Rng r(g_seed + block);
  // every length through the padding boundaries of the first blocks, then sampled lengths
  for (size_t n = 0; n <= extra_blocks * block + 20; ++n) One<Algo>(name, Pattern(0, n, g_seed));
  for (int kind = 1; kind <= 4; ++kind)
    for (size_t n : {size_t(1), block - 17, block - 16, block - 9, block - 8, block - 1, block, block + 1, 2 * block}) One<Algo>(name, Pattern(kind, n, g_seed));
  for (int i = 0; i < (g_thorough ? 60 : 12); ++i) One<Algo>(name, Pattern(0, r.below(g_thorough ? 6000 : 1500), g_seed + i));
  // one message around every multiple of the block up to 20 blocks
  for (size_t b = 3; b <= (g_thorough ? 34 : 10); ++b) One<Algo>(name, Pattern(0, b * block - r.below(18) + r.below(3), g_seed + b));
}

// -------------------------------------------------------------- compile time
template<size_t N> constexpr std::array<char, N> CtMsg() {
  std::array<char, N> a{};
  uint64_t z = N * 77 + 5;
  for (size_t i = 0; i < N; ++i) { z = z * 6364136223846793005ULL + 1442695040888963407ULL; a[i] = (char)(z >> 33); }
  return a;
}
template<typename Algo, size_t N> void CtOne(const char* name) {
  static constexpr auto msg = CtMsg<N>();
  static constexpr auto d = Algo::Digest(std::string_view(msg.data(), N));
  const std::string m(msg.data(), N);
  Rec("d").str("alg", name).bytes("m", m).bytes("out", View(d)).str("hex", ToHexString(d)).str("free", Free(name, m)).num("ct", 1).emit();
}
template<typename Algo> void Ct(const char* name) {
#ifndef VF_NO_CT
  CtOne<Algo, 0>(name); CtOne<Algo, 3>(name); CtOne<Algo, 55>(name); CtOne<Algo, 64>(name); CtOne<Algo, 119>(name); CtOne<Algo, 137>(name); CtOne<Algo, 200>(name);
#endif
}

// ----------------------------------------------------------------- huge input
// A 1 MiB pattern page mapped over and over: n bytes of address space for 1 MiB of memory.
struct Huge {
  char* base = nullptr; size_t len = 0;
  static constexpr size_t kPage = 1u << 20;
  explicit Huge(size_t n) : len(n) {
    int fd = memfd_create("vf", 0);
    std::string page = vf::Pattern(5, kPage, 0);
    for (size_t i = 0; i < kPage; ++i) page[i] = (char)((i * 131 + (i >> 8) * 7 + 3) & 0xFF);
    if (fd < 0 || write(fd, page.data(), kPage) != (ssize_t)kPage) exit(97);
    size_t pages = (n + kPage - 1) / kPage;
    base = (char*)mmap(nullptr, pages * kPage, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base == MAP_FAILED) exit(97);
    for (size_t p = 0; p < pages; ++p)
      if (mmap(base + p * kPage, kPage, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) exit(97);
    close(fd);
  }
  ~Huge() { munmap(base, (len + kPage - 1) / kPage * kPage); }
  std::string_view view() const { return {base, len}; }
};
template<typename Algo> void Big(const char* name, const std::vector<uint64_t>& lens, bool stream) {
  for (uint64_t n : lens) {
    Huge h(n);
    std::string one = Hex(Algo::Digest(h.view()));
    Rec r("big");
    r.str("alg", name).str("n", std::to_string(n)).str("hex", one);
    if (stream) {
      Streamer<Algo> s;
      std::string_view v = h.view();
      size_t step = (1u << 20) - 13;
      while (!v.empty()) { size_t k = std::min(step, v.size()); s.Update(v.substr(0, k)); v.remove_prefix(k); }
      r.str("stream", Hex(s.Finalize()));
    }
    r.emit();
    fflush(stdout);
  }
}

// ------------------------------------------------------------------ SHAKE etc
template<size_t... N> void ShakeLens(const std::string& m, std::index_sequence<N...>) {
  (([&] {
     Rec("shake").str("alg", "shake128").bytes("m", m).num("n", N + 1).str("hex", Hex(shake128::Digest<N + 1>(m))).str("alt", Hex(shake128::Algorithm<N + 1>::Digest(m))).emit();
     Rec("shake").str("alg", "shake256").bytes("m", m).num("n", N + 1).str("hex", Hex(shake256::Digest<N + 1>(m))).str("alt", Hex(shake256::Algorithm<N + 1>::Digest(m))).emit();
   }()), ...);
}
template<size_t N> void ShakeN(const std::string& m) {
  Rec("shake").str("alg", "shake128").bytes("m", m).num("n", N).str("hex", Hex(shake128::Digest<N>(m))).str("alt", Hex(shake128::Algorithm<N>::Digest(m))).emit();
  Rec("shake").str("alg", "shake256").bytes("m", m).num("n", N).str("hex", Hex(shake256::Digest<N>(m))).str("alt", Hex(shake256::Algorithm<N>::Digest(m))).emit();
}
template<size_t N> void ShakeCt() {
  static constexpr auto msg = CtMsg<N>();
  static constexpr auto d1 = shake128::Digest<200>(std::string_view(msg.data(), N));
  static constexpr auto d2 = shake256::Digest<150>(std::string_view(msg.data(), N));
  const std::string m(msg.data(), N);
  Rec("shake").str("alg", "shake128").bytes("m", m).num("n", 200).str("hex", Hex(d1)).str("alt", Hex(d1)).emit();
  Rec("shake").str("alg", "shake256").bytes("m", m).num("n", 150).str("hex", Hex(d2)).str("alt", Hex(d2)).emit();
}
static void Shake() {
  Rng r(g_seed);
  for (size_t n = 0; n <= 345; n += (g_thorough ? 1 : 1 + r.below(4))) { ShakeN<32>(Pattern(0, n, g_seed)); }
  for (size_t n : {0, 1, 135, 136, 137, 167, 168, 169, 271, 272, 273, 335, 336, 337}) {
    const std::string m = Pattern(0, n, g_seed + 1);
    ShakeN<1>(m); ShakeN<7>(m); ShakeN<8>(m); ShakeN<9>(m); ShakeN<135>(m); ShakeN<136>(m); ShakeN<137>(m); ShakeN<167>(m); ShakeN<168>(m); ShakeN<169>(m);
    ShakeN<272>(m); ShakeN<273>(m); ShakeN<336>(m); ShakeN<337>(m); ShakeN<700>(m);
  }
  ShakeLens(Pattern(0, 50 + g_seed % 40, g_seed + 2), std::make_index_sequence<140>{});
  ShakeN<2100>(Pattern(0, 3, g_seed));
  ShakeN<4096>(Pattern(0, 5, g_seed));
#ifndef VF_NO_CT
  ShakeCt<0>(); ShakeCt<5>(); ShakeCt<136>(); ShakeCt<170>();
#endif
}

// ------------------------------------------------------------- keyed BLAKEs
static void Blake2Keyed() {
  Rng r(g_seed);
  auto one = [&](const std::string& k, const std::string& m) {
    for (int w = 0; w < 2; ++w) {
      std::string hex, st;
      if (w == 0) { hex = Hex(blake2b::Algorithm::DigestKeyed(k, m)); auto s = blake2b::Algorithm::StreamInitKeyed(k); blake2b::Algorithm::StreamUpdate(s, m); st = Hex(blake2b::Algorithm::StreamFinalize(s)); }
      else { hex = Hex(blake2b_256::Algorithm::DigestKeyed(k, m)); auto s = blake2b_256::Algorithm::StreamInitKeyed(k); for (char c : m) blake2b_256::Algorithm::StreamUpdate(s, std::string_view(&c, 1)); st = Hex(blake2b_256::Algorithm::StreamFinalize(s)); }
      Rec("b2k").bytes("k", k).bytes("m", m).num("n", w ? 32 : 64).str("hex", hex).str("stream", st).emit();
    }
  };
  for (size_t kl = 0; kl <= 64; ++kl) { one(Pattern(0, kl, g_seed), Pattern(0, r.below(40), g_seed)); }
  for (size_t n : {0, 1, 63, 64, 65, 126, 127, 128, 129, 130, 255, 256, 257, 384}) { one(Pattern(0, 1 + r.below(64), n), Pattern(0, n, g_seed)); one(Pattern(0, 64, n), Pattern(0, n, g_seed)); }
  for (int kind = 1; kind < 5; ++kind) { one(Pattern(kind, 32, 0), Pattern(kind, 100, 0)); one(Pattern(kind, 64, 0), ""); }
  for (int i = 0; i < (g_thorough ? 100 : 20); ++i) one(Pattern(0, r.below(65), i), Pattern(0, r.below(600), g_seed + i));
}
template<size_t N> void B3N(const std::string& m, const std::string& k, const std::string& c) {
  Rec("b3").str("mode", "xof").bytes("m", m).bytes("k", "").num("n", N).str("hex", Hex(blake3::DigestXof<N>(m))).emit();
  Rec("b3").str("mode", "keyed").bytes("m", m).bytes("k", k).num("n", N).str("hex", Hex(blake3::DigestKeyed<N>(k, m))).emit();
  Rec("b3").str("mode", "derive").bytes("m", m).bytes("k", c).num("n", N).str("hex", Hex(blake3::DeriveKey<N>(c, m))).emit();
}
template<size_t N> void B3Ct() {
  static constexpr auto msg = CtMsg<N>();
  static constexpr auto d = blake3::DigestXof<100>(std::string_view(msg.data(), N));
  const std::string m(msg.data(), N);
  Rec("b3").str("mode", "xof").bytes("m", m).bytes("k", "").num("n", 100).str("hex", Hex(d)).emit();
}
template<size_t... N> void B3Lens(const std::string& m, std::index_sequence<N...>) {
  ((Rec("b3").str("mode", "xof").bytes("m", m).bytes("k", "").num("n", N + 1).str("hex", Hex(blake3::DigestXof<N + 1>(m))).emit()), ...);
}
static void Blake3Modes() {
  Rng r(g_seed);
  for (size_t n : {0, 1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 1023, 1024, 1025, 2047, 2048, 2049}) {
    const std::string m = Pattern(0, n, g_seed), k = Pattern(0, 32, g_seed + n), c = Pattern(0, n % 90, g_seed * 3 + n);
    if (n <= 129 || n == 1025) { B3N<1>(m, k, c); B3N<63>(m, k, c); B3N<64>(m, k, c); B3N<65>(m, k, c); B3N<131>(m, k, c); }
    else B3N<32>(m, k, c);
  }
  for (size_t cl : {0, 1, 63, 64, 65, 1024, 1025}) B3N<32>(Pattern(0, 7, g_seed), Pattern(0, 32, 9), Pattern(0, cl, g_seed));
  // tree shapes: lengths around every chunk count up to 17 (thorough 40)
  for (size_t ch = 1; ch <= (g_thorough ? 40 : 17); ++ch) {
    for (int d = -1; d <= 1; ++d) if (g_thorough || ch <= 9 || d == 1) One<blake3::Algorithm>("blake3", Pattern(0, ch * 1024 + d, g_seed + ch));
    if (ch > 2 && ch % 2) B3N<32>(Pattern(0, ch * 1024 - r.below(1000), ch), Pattern(0, 32, ch), Pattern(0, 20, ch));
  }
  for (int i = 0; i < 10; ++i) One<blake3::Algorithm>("blake3", Pattern(0, 1024 + r.below(7000), i + g_seed));
  B3Lens(Pattern(0, 70, g_seed), std::make_index_sequence<140>{});
  { const std::string m = Pattern(0, 3, g_seed); Rec("b3").str("mode", "xof").bytes("m", m).bytes("k", "").num("n", 16520).str("hex", Hex(blake3::DigestXof<16520>(m))).emit(); }  // more than 256 blocks
  B3N<1000>(Pattern(0, 4, 4), Pattern(0, 32, 4), "ctx");
#ifndef VF_NO_CT
  B3Ct<0>(); B3Ct<64>(); B3Ct<65>(); B3Ct<1024>(); B3Ct<1100>();
#endif
  // key bits matter: each single byte changed
  for (size_t i = 0; i < 32; i += (g_thorough ? 1 : 5)) { std::string k = Pattern(1, 32, 0); k[i] = (char)(1 + i); B3N<32>("m", k, k); }
}

// ------------------------------------------------------------------- streaming
template<typename Algo> void Splits(const char* name) {
  const size_t block = std::string_view(name) == "blake3" ? 64 : Algo::kBlockSize;
  const size_t top = 2 * block + 3;
  auto run = [&](size_t n, const std::string& m, const std::vector<std::vector<size_t>>& cuts) {
    std::vector<std::string> res;
    for (const auto& cs : cuts) {
      Streamer<Algo> s; size_t at = 0;
      for (size_t c : cs) { s.Update(std::string_view(m).substr(at, c - at)); at = c; }
      s.Update(std::string_view(m).substr(at));
      res.push_back(Hex(s.Finalize()));
    }
    std::string js = "[";
    for (size_t i = 0; i < cuts.size(); ++i) { js += (i ? ",[" : "["); for (size_t j = 0; j < cuts[i].size(); ++j) js += (j ? "," : "") + std::to_string(cuts[i][j]); js += "]"; }
    js += "]";
    Rec("splits").str("alg", name).num("n", n).str("one", Hex(Algo::Digest(m))).raw("cuts", js).strs("got", res).emit();
  };
  for (size_t n = 0; n <= top; ++n) {
    const std::string m = Pattern(0, n, g_seed + 7);
    std::vector<std::vector<size_t>> cuts;
    for (size_t i = 0; i <= n; ++i) cuts.push_back({i});
    run(n, m, cuts);
  }
  Rng r(g_seed + 99);
  for (int i = 0; i < (g_thorough ? 400 : 60); ++i) {   // random multi-way splits of longer messages
    const size_t n = r.below(5 * block) + (std::string_view(name) == "blake3" && r.chance(50) ? 1000 + r.below(3000) : 0);
    const std::string m = Pattern(0, n, g_seed + i);
    std::vector<std::vector<size_t>> cuts;
    for (int j = 0; j < 8; ++j) {
      std::vector<size_t> c; size_t at = 0;
      while (at < n && c.size() < 200) { size_t step; switch (r.below(6)) { case 0: step = 0; break; case 1: step = 1; break; case 2: step = block; break; case 3: step = r.below(2 * block + 2); break; case 4: step = block - 1 + r.below(3); break; default: step = r.below(block); }
        at = std::min(n, at + step); c.push_back(at); }
      cuts.push_back(c);
    }
    run(n, m, cuts);
  }
}
// random histories over several live streams: new / update / copy / assign / peek
template<typename Algo> void Histories(const char* name) {
  const size_t block = std::string_view(name) == "blake3" ? 64 : Algo::kBlockSize;
  Rng r(g_seed * 31 + block + Algo::kDigestSize);
  for (int h = 0; h < (g_thorough ? 150 : 16); ++h) {
    Rec("reset").num("id", h).str("alg", name).emit();
    std::vector<Streamer<Algo>> st(3);
    std::vector<std::string> msg(3);
    for (int i = 0; i < 3; ++i) Rec("new").num("s", i).emit();
    const int steps = 10 + r.below(20);
    for (int k = 0; k < steps; ++k) {
      const size_t s = r.below(3), t = r.below(3);
      switch (r.below(8)) {
        case 0: case 1: case 2: case 3: {
          size_t n;
          const size_t fill = msg[s].size() % block;
          switch (r.below(7)) { case 0: n = 0; break; case 1: n = 1; break; case 2: n = block - fill; break; case 3: n = block - fill - 1; break; case 4: n = block - fill + 1; break; case 5: n = 2 * block - fill; break; default: n = r.below(2 * block); }
          if (msg[s].size() + n > 6 * block) n = 1;
          const std::string c = Pattern(0, n, r.next());
          st[s].Update(c);
          msg[s] += c;
          Rec("update").num("s", s).bytes("c", c).emit();
          break;
        }
        case 4: if (s != t) { st[t] = st[s]; msg[t] = msg[s]; Rec("copy").num("s", s).num("t", t).emit(); } break;
        case 5: if (r.chance(30)) { st[s] = Streamer<Algo>(); msg[s].clear(); Rec("new").num("s", s).emit(); } break;
        default: Rec("peek").num("s", s).str("hex", Hex(st[s].Finalize())).str("one", Hex(Algo::Digest(msg[s]))).emit(); break;
      }
    }
    for (int s = 0; s < 3; ++s) Rec("peek").num("s", s).str("hex", Hex(st[s].Finalize())).str("one", Hex(Algo::Digest(msg[s]))).emit();
  }
}
// raw state interface: Algo::Stream*; state is a value
template<typename Algo> void RawStream(const char* name) {
  Rng r(g_seed + 5);
  const size_t block = Algo::kBlockSize;
  for (int h = 0; h < 12; ++h) {
    const std::string m = Pattern(0, r.below(4 * block), g_seed + h);
    const size_t c = r.below(m.size() + 1);
    auto s = Algo::StreamInit();
    Algo::StreamUpdate(s, std::string_view(m).substr(0, c));
    const auto copy = s;
    (void)Algo::StreamFinalize(s);
    (void)Algo::StreamFinalize(copy);
    Algo::StreamUpdate(s, std::string_view(m).substr(c));
    const auto a = Algo::StreamFinalize(s), b = Algo::StreamFinalize(s), p = Algo::StreamFinalize(copy);
    Rec("raw").str("alg", name).num("n", m.size()).num("c", c).str("one", Hex(Algo::Digest(m))).str("pre", Hex(Algo::Digest(m.substr(0, c))))
        .str("a", Hex(a)).str("b", Hex(b)).str("p", Hex(p)).emit();
  }
}
static constexpr auto kCtStreamMsg = CtMsg<150>();
template<typename Algo> constexpr bool CtStreamOk() {
  const std::string_view m(kCtStreamMsg.data(), 150);
  bool ok = true;
  for (size_t c : {0u, 1u, 64u, 72u, 104u, 128u, 149u, 150u}) {
    Streamer<Algo> s;
    s.Update(m.substr(0, c));
    (void)s.Finalize();
    s.Update(m.substr(c));
    ok = ok && s.Finalize() == Algo::Digest(m);
  }
  return ok;
}
template<typename Algo> void CtStream(const char* name) {
#ifdef VF_NO_CT
  const bool ok = CtStreamOk<Algo>();
#else
  static constexpr bool ok = CtStreamOk<Algo>();
#endif
  Rec("ctstream").str("alg", name).boolean("ok", ok).emit();
}

// ------------------------------------------------------------------------ HMAC
template<typename Algo> void HmacOne(const char* name, const std::string& k, const std::string& m, Rng& r) {
  const std::string one = Hex(Hmac<Algo>::Digest(k, m));
  HmacStreamer<Algo> s(k);
  size_t at = 0; std::vector<std::string> peeks; std::vector<size_t> ats;
  std::string hexp;
  const size_t c1 = r.below(m.size() + 1);
  s.Update(std::string_view(m).substr(0, c1));
  const std::string mid = Hex(s.Finalize());
  HmacStreamer<Algo> copy = s;
  s.Update(std::string_view(m).substr(c1)).Update("");
  const std::string full = Hex(s.Finalize()), again = Hex(s.Finalize()), cp = Hex(copy.Finalize());
  auto st = Hmac<Algo>::StreamInit(k);
  for (char ch : m) Hmac<Algo>::StreamUpdate(st, std::string_view(&ch, 1));
  const std::string bytewise = Hex(Hmac<Algo>::StreamFinalize(st));
  Rec("hmac").str("alg", name).bytes("k", k).bytes("m", m).num("c", c1).str("one", one).str("full", full).str("again", again)
      .str("mid", mid).str("premid", Hex(Hmac<Algo>::Digest(k, m.substr(0, c1)))).str("cp", cp).str("bw", bytewise).emit();
}
template<typename Algo> void HmacAll(const char* name) {
  const size_t block = Algo::kBlockSize;
  Rng r(g_seed + block);
  // value judged against RFC 2104 for every key length class
  std::vector<size_t> kl = {0, 1, Algo::kDigestSize - 1, Algo::kDigestSize, Algo::kDigestSize + 1, block - 2, block - 1, block, block + 1, block + 2, 2 * block - 1, 2 * block, 2 * block + 1, 3 * block};
  for (int i = 0; i < (g_thorough ? 60 : 6); ++i) kl.push_back(r.below(2 * block + 20));
  for (size_t k : kl) HmacOne<Algo>(name, Pattern(0, k, g_seed + k), Pattern(0, r.below(80), k), r);
  for (size_t n : {size_t(0), size_t(1), block - 1, block, block + 1, 2 * block}) HmacOne<Algo>(name, Pattern(0, 20, n), Pattern(0, n, g_seed), r);
  for (int kind = 1; kind <= 4; ++kind) { HmacOne<Algo>(name, Pattern(kind, block, 0), Pattern(kind, 10, 0), r); HmacOne<Algo>(name, Pattern(kind, block + 1, 0), Pattern(kind, 10, 0), r); }
  // every key length: trailing zero bytes are absorbed by the padding iff the padded key fits the block
  std::vector<std::string> a, b;
  for (size_t n = 0; n < block; ++n) {
    std::string k = Pattern(0, n, g_seed);
    a.push_back(Hex(Hmac<Algo>::Digest(k, "x")));
    k.resize(block, '\0');
    b.push_back(Hex(Hmac<Algo>::Digest(k, "x")));
  }
  Rec("hpad").str("alg", name).strs("short", a).strs("padded", b).emit();
}
template<typename Algo> void HmacBigKeys(const char* name) {  // long key = hashed key
  const size_t block = Algo::kBlockSize;
  std::vector<std::string> a, b;
  for (size_t n = block + 1; n <= block + 70; ++n) {
    std::string k = Pattern(0, n, g_seed);
    a.push_back(Hex(Hmac<Algo>::Digest(k, "message")));
    b.push_back(Hex(Hmac<Algo>::Digest(View(Algo::Digest(k)), "message")));
  }
  Rec("hlong").str("alg", name).strs("long", a).strs("hashed", b).emit();
}
static constexpr auto kCtKey = CtMsg<100>();
template<typename Algo> void HmacCt(const char* name) {
#ifndef VF_NO_CT
  static constexpr auto msg = CtMsg<40>();
  static constexpr auto d = Hmac<Algo>::Digest(std::string_view(kCtKey.data(), 100), std::string_view(msg.data(), 40));
  std::string k(kCtKey.data(), 100), m(msg.data(), 40);
  const std::string h = Hex(d);
  Rec("hmac").str("alg", name).bytes("k", k).bytes("m", m).num("c", 0).str("one", h).str("full", h).str("again", h)
      .str("mid", "").str("premid", "").str("cp", "").str("bw", h).emit();
#endif
}

int main(int argc, char** argv) {
  const std::string mode = argc > 1 ? argv[1] : "";
  g_seed = argc > 2 ? strtoull(argv[2], nullptr, 10) : 1;
  g_thorough = argc > 3 && std::string(argv[3]) == "thorough";
  const std::string only = argc > 4 ? argv[4] : "";
  auto want = [&](const char* n) { return only.empty() || only == n; };
  bool done = false;
#ifdef VF_md
  if (mode == "md") { done = true; ForMd([&]<typename A>(const char* n) { if (want(n)) { Values<A>(n, 2); Ct<A>(n); } }); }
#endif
#ifdef VF_sha3
  if (mode == "sha3") { done = true; ForSha3([&]<typename A>(const char* n) { Values<A>(n, g_thorough ? 2 : 1); Ct<A>(n); }); }
#endif
#ifdef VF_shake
  if (mode == "shake") { done = true; Shake(); }
#endif
#ifdef VF_blake
  if (mode == "blake") { done = true; ForBlake([&]<typename A>(const char* n) { Values<A>(n, 2); Ct<A>(n); }); Blake2Keyed(); Blake3Modes(); }
#endif
#ifdef VF_splits
  if (mode == "splits") { done = true; ForAll([&]<typename A>(const char* n) { if (want(n)) { Splits<A>(n); RawStream<A>(n); } }); }
#endif
#ifdef VF_hist
  if (mode == "hist") { done = true; ForAll([&]<typename A>(const char* n) { if (want(n)) Histories<A>(n); }); }
#endif
#ifdef VF_ctstream
  if (mode == "ctstream") { done = true; ForAll([&]<typename A>(const char* n) { if (want(n)) CtStream<A>(n); }); }
#endif
#ifdef VF_hmac
  if (mode == "hmac") { done = true; ForAll([&]<typename A>(const char* n) { if (want(n)) { HmacAll<A>(n); HmacBigKeys<A>(n); HmacCt<A>(n); } }); }
#endif
#ifdef VF_big
  if (mode == "big" || mode == "bigstream") {
    done = true;
    std::vector<uint64_t> lens;
    for (int i = 5; i < argc; ++i) lens.push_back(strtoull(argv[i], nullptr, 10));
    ForAll([&]<typename A>(const char* n) { if (want(n)) Big<A>(n, lens, mode == "bigstream"); });
  }
#endif
  if (!done) return 97;
  return 0;
}
