// F01: path functions.  F05: histories of real files in a scratch directory.
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <ctime>
#include <filesystem>

#include "absl/time/time.h"
#include "mbo/file/artefact.h"
#include "mbo/file/file.h"
#include "trace.h"
namespace fs = std::filesystem;
namespace mf = mbo::file;

static void Norm(const std::string& p) {
  vf::Rec("norm").bytes("p", p).bytes("r", mf::NormalizePath(p).native()).boolean("abs", mf::IsAbsolutePath(p)).emit();
}
static void Join(const std::vector<std::string>& v) {
  std::string j, a;
  switch (v.size()) {
    case 1: j = mf::JoinPaths(v[0]).native(), a = mf::JoinPathsRespectAbsolute(v[0]).native(); break;
    case 2: j = mf::JoinPaths(v[0], v[1]).native(), a = mf::JoinPathsRespectAbsolute(v[0], v[1]).native(); break;
    case 3: j = mf::JoinPaths(v[0], v[1], v[2]).native(), a = mf::JoinPathsRespectAbsolute(v[0], v[1], v[2]).native(); break;
    case 4: j = mf::JoinPaths(v[0], v[1], v[2], v[3]).native(), a = mf::JoinPathsRespectAbsolute(v[0], v[1], v[2], v[3]).native(); break;
    default: j = mf::JoinPaths(v[0], v[1], v[2], v[3], v[4]).native(), a = mf::JoinPathsRespectAbsolute(v[0], v[1], v[2], v[3], v[4]).native();
  }
  vf::Rec("join").bytess("ps", v).bytes("r", j).emit();
  vf::Rec("joinabs").bytess("ps", v).bytes("r", a).emit();
}
static void Paths(uint64_t seed, bool thorough) {
  vf::Rng rng(seed);
  const std::string al = "ab./\\";
  std::vector<std::string> all{""};
  size_t from = 0;
  for (int len = 0; len <= (thorough ? 7 : 6); ++len) {
    const size_t to = all.size();
    for (size_t i = from; i < to; ++i) {
      Norm(all[i]);
      for (char c : al) all.push_back(all[i] + c);
    }
    from = to;
  }
  const std::vector<std::string> pool{"", "/", "a", "/a", "a/", "..", "/..", ".", "a/b", "a/..", "../b", "//b/", "a\\", "b/.", "./", "...", ".a", "/a/../..", "a//b"};
  for (auto& a : pool) { Join({a}); for (auto& b : pool) { Join({a, b}); for (auto& c : pool) Join({a, b, c}); } }
  auto text = [&](int n) { std::string s; for (int k = rng.below(n); k > 0; --k) { static const std::string ch = "aab..///\\\xff \x01"; s += ch[rng.below(ch.size())]; } return s; };
  for (int i = 0; i < (thorough ? 60000 : 12000); ++i) {
    Norm(text(24));
    std::vector<std::string> v;
    for (int n = 1 + rng.below(5); n > 0; --n) v.push_back(rng.chance(50) ? rng.of(pool) : text(8));
    Join(v);
  }
}

using Runs = std::vector<std::pair<int, int>>;
static std::string Rle(std::string_view s) {
  std::string r = "[";
  for (size_t i = 0; i < s.size();) {
    size_t j = i;
    while (j < s.size() && s[j] == s[i]) ++j;
    if (r.size() > 1) r += ',';
    r += "[" + std::to_string((unsigned char)s[i]) + "," + std::to_string(j - i) + "]";
    i = j;
  }
  return r + "]";
}
static std::string At(absl::Time t) {
  const int64_t s = absl::ToUnixSeconds(t);
  if (s > INT32_MAX || s < INT32_MIN) return "[0,-7]";
  return "[" + std::to_string(s) + "," + std::to_string(absl::ToInt64Nanoseconds(t - absl::FromUnixSeconds(s))) + "]";
}
template<typename F> static void Guard(F&& f) {
  try { f(); } catch (const std::exception& e) { vf::Rec("threw").str("what", e.what()).emit(); }
}

struct Store {
  vf::Rng& rng;
  const bool thorough;
  // index 0 unused
  const std::vector<std::string> names{"", "a", "b.txt", "d", "d/x", "p", "p/y", "L", "odd \n\xff\xc3\xa4 '%s", std::string(300, 'x'), "missing", "missing/z", "/proc/self/mem"};
  const std::vector<int> place{0, 0, 0, 3, 0, 5, 0, 0, 10, 0, 10, 0};
  const std::vector<int> initial{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 3};
  fs::path Path(int n) const { return names[n]; }

  std::string Content() {
    std::string s;
    const int kind = rng.below(10);
    if (kind == 0) return s;
    static const std::string ch("\n\n\nab\0\r\xff\x1a\xef\xbb\xbf", 12);
    if (kind == 1) { static const std::vector<int> sz{4095, 4096, 4097, 8191, 8192, 8193, 65536, 70001, 300000}; s.assign(rng.of(sz), 'q'); if (rng.chance(50)) s[rng.below(s.size())] = '\n'; return rng.chance(50) ? s : s + "\n" + s + "end"; }
    for (int n = 1 + rng.below(8); n > 0; --n) s.append(rng.chance(80) ? 1 : 1 + rng.below(5), ch[rng.below(ch.size())]);
    return s;
  }
  int Any() { return 1 + rng.below(12); }
  static std::string Recent() { const int64_t now = time(nullptr); return "[" + std::to_string(now - 30) + "," + std::to_string(now + 30) + ",-1]"; }
  void Get(int n) {
    const auto r = mf::GetContents(Path(n));
    vf::Rec e("get");
    e.num("n", n).num("code", (int)r.status().code()).raw("d", r.ok() ? Rle(*r) : "[]").emit();
  }
  void Lines(int n, size_t max) {
    const auto r = mf::GetMaxLines(Path(n), max);
    vf::Rec e("lines");
    e.num("n", n).num("max", (int)std::min<size_t>(max, 2000000000)).num("code", (int)r.status().code()).raw("d", r.ok() ? Rle(*r) : "[]").emit();
  }
  void Readable(int n) { vf::Rec("readable").num("n", n).num("code", (int)mf::Readable(Path(n)).code()).emit(); }
  void MTime(int n) {
    const auto r = mf::GetMTime(Path(n));
    vf::Rec("mtime").num("n", n).num("code", (int)r.status().code()).raw("t", r.ok() ? At(*r) : "[0,0]").emit();
  }
  void Art(int n, int max, bool skip) {
    mf::Artefact::Options o;
    o.skip_time = skip;
    const int tz = rng.below(3) * 3600;
    if (tz) o.tz = absl::FixedTimeZone(tz);
    const auto r = max < 0 ? (skip || tz || rng.chance(50) ? mf::Artefact::Read(names[n], o) : mf::Artefact::Read(names[n])) : mf::Artefact::ReadMaxLines(names[n], max, o);
    vf::Rec e("art");
    e.num("n", n).num("max", max).boolean("skip", skip).num("code", (int)r.status().code()).raw("d", r.ok() ? Rle(r->data) : "[]");
    e.boolean("name", r.ok() && r->name == names[n]).raw("t", r.ok() ? At(r->time) : "[0,0]");
    e.num("tzin", tz).num("tz", r.ok() ? r->tz.off : 0).emit();
  }
  void Observe(int n) {
    Guard([&] { Get(n); });
    Guard([&] { Lines(n, rng.chance(10) ? 5000000000ULL : rng.below(5)); });
    Guard([&] { Readable(n); });
    Guard([&] { MTime(n); });
    Guard([&] { Art(n, rng.chance(50) ? -1 : (int)rng.below(4), rng.chance(50)); });
  }
  void Set(int n) {
    const std::string c = Content();
    const bool ok = mf::SetContents(Path(n), c).ok();
    vf::Rec("set").num("n", n).raw("d", Rle(c)).boolean("ok", ok).raw("t", Recent()).emit();
  }
  bool Gone(int n) const { std::error_code ec; const auto s = fs::symlink_status(Path(n), ec); return s.type() == fs::file_type::not_found; }
  void Step() {
    const int k = rng.below(100);
    if (k < 45) { Guard([&] { Set(1 + rng.below(11)); }); return; }
    if (k < 55) { const int n = 1 + rng.below(8); std::error_code ec; fs::remove_all(Path(n), ec); vf::Rec("remove").num("n", n).emit(); return; }
    if (k < 63) {
      const int n = rng.chance(70) ? 3 : rng.chance(50) ? 5 : 1 + rng.below(2);
      if (!Gone(n)) return;
      fs::create_directory(Path(n));
      vf::Rec("mkdir").num("n", n).raw("t", Recent()).emit();
      return;
    }
    if (k < 72) {
      const int n = rng.chance(60) ? 7 : 1 + rng.below(2);
      if (!Gone(n)) return;
      static const std::vector<int> to{1, 2, 3, 7, 8, 10};
      const int m = rng.of(to);
      fs::create_symlink(fs::absolute(Path(m)), Path(n));
      vf::Rec("link").num("n", n).num("m", m).emit();
      return;
    }
    if (k < 82) {
      const int n = 1 + rng.below(8);
      std::error_code ec;
      if (!fs::is_regular_file(Path(n), ec)) return;
      static const std::vector<int64_t> secs{0, 1, -1, 86400, -86400 * 365, 1000000000, 2000000000};
      const int64_t s = rng.chance(50) ? rng.of(secs) : (int64_t)rng.below(2000000000);
      const long ns = rng.chance(50) ? 0 : 1000 * (long)rng.below(1000000);
      const timespec ts[2] = {{s, ns}, {s, ns}};
      if (utimensat(AT_FDCWD, Path(n).c_str(), ts, 0)) return;
      vf::Rec("touch").num("n", n).raw("t", "[" + std::to_string(s) + "," + std::to_string(ns) + "]").emit();
      return;
    }
    if (k < 84) { Guard([&] { Full(); }); return; }
    if (k < 86) { Guard([&] { Limited(); }); return; }
    Observe(Any());
  }
  void Full() {
    if (access("/dev/full", W_OK)) return;
    const std::string c = Content();
    vf::Rec("full").raw("d", Rle(c)).num("max", 0).boolean("ok", mf::SetContents("/dev/full", c).ok()).emit();
  }
  // a medium that takes only so many bytes
  void Limited() {
    static const std::vector<int> lim{0, 1, 5, 4096, 8192, 50000, 100000};
    const int max = rng.of(lim);
    const std::string c = Content();
    fflush(stdout);
    const pid_t pid = fork();
    if (pid == 0) {
      signal(SIGXFSZ, SIG_IGN);
      const rlimit r{(rlim_t)max, (rlim_t)max};
      if (setrlimit(RLIMIT_FSIZE, &r)) _exit(2);
      _exit(mf::SetContents("limited", c).ok() ? 0 : 1);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) != 2) vf::Rec("full").raw("d", Rle(c)).num("max", max).boolean("ok", WEXITSTATUS(st) == 0).emit();
    fs::remove("limited");
  }
  void Run(int histories, int steps) {
    for (int h = 0; h < histories; ++h) {
      for (int n = 1; n <= 10; ++n) { std::error_code ec; if (n != 4 && n != 6) fs::remove_all(Path(n), ec); }
      vf::Rec("reset").nums("place", place).nums("kind", initial).emit();
      for (int i = 0; i < steps; ++i) {
        Step();
        if (rng.chance(30)) Observe(Any());
      }
      for (int n = 1; n <= 12; ++n) Observe(n);
    }
  }
};

int main(int argc, char** argv) {
  static char buf[1 << 20];
  setvbuf(stdout, buf, _IOFBF, sizeof buf);
  const uint64_t seed = argc > 2 ? strtoull(argv[2], nullptr, 10) : 1;
  const bool thorough = argc > 3 && std::string(argv[3]) == "thorough";
  if (std::string(argv[1]) == "1") { Paths(seed, thorough); return 0; }
  vf::Rng rng(seed);
  Store{rng, thorough}.Run(thorough ? 2500 : 400, 30);
}
