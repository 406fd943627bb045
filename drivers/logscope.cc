// Histories of scoped log streams and checks.
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <cstdlib>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <source_location>
#include "mbo/log/scoped_log_check.h"
#include "mbo/log/scoped_stream.h"
#include "trace.h"
using mbo::log::ScopedStream;
using mbo::log::ScopedStreamErr;
using mbo::log::ScopedStreamOut;
using mbo::log::ScopedStreamVoid;
using mbo::log::ScopedLogCheck;
using mbo::log::Voidifier;
using mbo::log::VoidStream;
using std::source_location;
using vf::Rec;

static int g_fd = 1;  // where events go
static void Emit(Rec r) {
  std::string s = r.take() + "\n";
  const char* p = s.data(); size_t n = s.size();
  while (n) { ssize_t w = write(g_fd, p, n); if (w <= 0) _exit(97); p += w; n -= w; }
}
struct Part { char t; std::string b; int v; int how; };
static std::string PartsJson(const std::vector<Part>& ps) {
  std::string s = "[";
  for (size_t i = 0; i < ps.size(); ++i) {
    if (i) s += ",";
    s += std::string("{\"t\":\"") + ps[i].t + "\",\"v\":" + std::to_string(ps[i].v) + ",\"b\":" + Rec::arrayed(ps[i].b) + "}";
  }
  return s + "]";
}
template<typename S> void Chain(S& os, const std::vector<Part>& ps, size_t i, size_t end) {
  if (i >= end) return;
  const Part& p = ps[i];
  auto next = [&](auto&& r) { Chain(r, ps, i + 1, end); };
  switch (p.t) {
    case 's':
      if (p.b.size() == 1 && p.how == 0) { next(os << p.b[0]); return; }
      if (p.how == 1) { next(os << std::string_view(p.b)); return; }
      if (p.how == 2 && p.b.find('\0') == std::string::npos) { next(os << p.b.c_str()); return; }
      next(os << p.b); return;
    case 'n':
      if (p.how == 0) { next(os << p.v); return; }
      if (p.how == 1) { next(os << (int64_t)p.v); return; }
      if (p.how == 2 && p.v >= 0) { next(os << (size_t)p.v); return; }
      if (p.how == 3 && p.v >= 0 && p.v < 2) { next(os << (bool)p.v); return; }
      next(os << p.v); return;
    case 'x':
      if constexpr (!std::same_as<S, decltype(ScopedLogCheck(true, ""))>) next(os << std::hex);
      return;
    case 'd':
      if constexpr (!std::same_as<S, decltype(ScopedLogCheck(true, ""))>) next(os << std::dec);
      return;
  }
}
struct Any {
  virtual ~Any() = default;
  virtual void Put(const std::vector<Part>& ps, bool chain) = 0;
  virtual bool Peek(std::string& s) = 0;
};
template<typename F> struct Held : Any {
  std::invoke_result_t<F> s;
  explicit Held(F f) : s(f()) {}
  void Put(const std::vector<Part>& ps, bool chain) override {
    if (chain) { Chain(s, ps, 0, ps.size()); return; }
    for (size_t i = 0; i < ps.size(); ++i) Chain(s, ps, i, i + 1);
  }
  bool Peek(std::string& out) override {
    if constexpr (requires { s.Stream().str(); }) { out = s.Stream().str(); return true; } else { return false; }
  }
};
template<typename F> std::unique_ptr<Any> Hold(F f) { return std::unique_ptr<Any>(new Held<F>(f)); }

namespace deep::inner {
struct Klass { template<typename T> static source_location Loc(T) { return source_location::current(); }
  source_location operator()(int) const { return source_location::current(); } };
}
static source_location Locs(int i) {
  switch (i % 4) {
    case 0: return source_location::current();
    case 1: return deep::inner::Klass::Loc<std::vector<int>>({});
    case 2: return deep::inner::Klass{}(3);
    default: return [] { return source_location::current(); }();
  }
}
class FdBuf : public std::streambuf {
 public:
  int fd = -1; bool buffered = false; std::string buf;
 protected:
  int overflow(int c) override { char ch = (char)c; xsputn(&ch, 1); return c; }
  std::streamsize xsputn(const char* p, std::streamsize n) override {
    if (buffered) buf.append(p, n); else if (write(fd, p, n) != n) _exit(97);
    return n;
  }
  int sync() override { if (!buf.empty()) { if (write(fd, buf.data(), buf.size()) != (ssize_t)buf.size()) _exit(97); buf.clear(); } return 0; }
};
static FdBuf g_buf[5];
static std::ostream* g_sink[5];  // 1 cout, 2 cerr, 3, 4
static std::stringbuf g_str[5];

struct Info { int sink; std::string msg; bool keeps, quits; source_location loc; bool check = false; };
static std::map<int, std::string> g_msgs;  // messages must outlive the scopes
constexpr auto C = mbo::log::ScopedStreamMode::kContinue;
constexpr auto Q = mbo::log::ScopedStreamMode::kQuickExit;

template<mbo::log::ScopedStreamMode M> std::unique_ptr<Any> Make(int kind, int sink, std::string_view msg, source_location loc, Info& i) {
  using SS = std::stringstream; using OS = std::ostream; using SV = std::string_view;
  i.quits = M == Q; i.keeps = true; i.sink = sink; i.msg = msg; i.loc = loc;
  auto& out = *g_sink[sink];
  switch (kind) {
    case 0: i.sink = 1; i.msg = "";
      return Hold([=] { return ScopedStreamOut<M>(loc); });
    case 1: i.sink = 2; i.msg = ""; return Hold([=] { return ScopedStreamErr<M>(loc); });
    case 2: i.sink = 0; i.keeps = false; i.msg = ""; return Hold([=] { return ScopedStreamVoid<M>(loc); });
    case 3: return Hold([&] { return ScopedStream<M>(loc, out, msg); });
    case 4: i.sink = 2; i.msg = ""; return Hold([&] { return ScopedStream<M>(loc); });
    case 5: i.keeps = false; return Hold([&] { return ScopedStream<M, VoidStream>(loc, out, msg); });
    case 6: i.keeps = false; i.msg = ""; return Hold([&] { return ScopedStream<M, VoidStream, OS, Voidifier>(loc, out); });
    case 7: i.msg = ""; return Hold([&] { return ScopedStream<M, SS, OS, Voidifier>(loc, out); });
    case 8: i.sink = 2; i.msg = ""; i.keeps = false; return Hold([&] { return ScopedStream<M, VoidStream, Voidifier, Voidifier>(loc, Voidifier{}); });
    case 9: i.sink = 0; return Hold([&] { return ScopedStream<M, SS, VoidStream, SV>(loc, Voidifier{}, msg); });
    case 10: return Hold([&] { return ScopedStream<M, std::ostringstream>(loc, out, msg); });
    case 11: i.msg = ""; return Hold([&] { return ScopedStream<M>(loc, out); });
    case 12: i.sink = 0; i.check = true; i.quits = false; i.keeps = false; return Hold([&] { return ScopedLogCheck(true, msg, loc); });
    default: i.sink = 2; i.check = true; i.quits = true; return Hold([&] { return ScopedLogCheck(false, msg, loc); });
  }
}
// scopes that find out themselves where they are; each returns where that was
static std::unique_ptr<Any> MakeHere(int kind, std::string_view msg, bool quits, Info& i) {
  i = Info{1, "", true, quits, source_location::current()};
  switch (kind) {
#define HERE(E) { auto f = [&](source_location* l) { *l = source_location::current(); return E; }; \
    return Hold([&] { return f(&i.loc); }); }
    case 0: if (quits) HERE(ScopedStreamOut<Q>()) else HERE(ScopedStreamOut())
    case 1: i.sink = 2; if (quits) HERE(ScopedStreamErr<Q>()) else HERE(ScopedStreamErr<>())
    case 2: i.sink = 0; i.keeps = false; if (quits) HERE(ScopedStreamVoid<Q>()) else HERE(ScopedStreamVoid())
    default:
      i.sink = quits ? 2 : 0; i.msg = msg; i.keeps = quits; i.check = true;
      if (quits) HERE(ScopedLogCheck(false, msg)) else HERE(ScopedLogCheck(true, msg))
  }
}
static void EmitOpen(int id, const Info& i, Rec r) {
  r.num("id", id).num("sink", i.sink).bytes("file", i.loc.file_name()).num("line", i.loc.line()).bytes("func", i.loc.function_name())
      .bytes("msg", i.msg).boolean("keeps", i.keeps).boolean("quits", i.quits);
  Emit(r);
}
static std::string Text(vf::Rng& r) {
  std::string s; int n = r.chance(5) ? 400 + r.below(600) : r.below(7);
  if (r.chance(10)) return std::string(r.below(4), "\n \0\r:\t"[r.below(6)]);  // nothing but one
  for (int i = 0; i < n; ++i) s += r.chance(8) ? (char)r.next() : "ab :\n[]%"[r.below(8)];
  return s;
}
static std::vector<Part> Parts(vf::Rng& r, bool hex, bool neg) {
  std::vector<Part> ps;
  for (int n = r.below(4) + (r.chance(90) ? 1 : 0); n > 0; --n) {
    int k = r.below(10);
    if (k < 5) ps.push_back({'s', r.chance(30) ? std::string(1, (char)('a' + r.below(26))) : Text(r), 0, (int)r.below(4)});
    else if (k < 8 || !hex) { int v = r.chance(40) ? (int)r.below(2) : r.chance(50) ? (int)r.below(300) : (int)(r.next() >> 34); ps.push_back({'n', "", neg && r.chance(50) ? -v : v, (int)r.below(4)}); }
    else ps.push_back({r.chance(50) ? 'x' : 'd', "", 0, 0});
  }
  return ps;
}
static std::array<std::string, 5> g_seen;
static std::string Seen(bool live) {
  if (!live) return "[]";
  std::string s = "[";
  for (int i = 1; i < 5; ++i) {
    std::string now = g_str[i].str();
    bool grew = now.compare(0, g_seen[i].size(), g_seen[i]) == 0;
    s += (i > 1 ? "," : "") + (grew ? Rec::arrayed(std::string_view(now).substr(g_seen[i].size())) : std::string("[-1]"));
    g_seen[i] = now;
  }
  return s + "]";
}
static int g_conds, g_msgs_evaluated;
static bool Cond(bool b) { ++g_conds; return b; }
static const char* Message() { ++g_msgs_evaluated; return "message"; }

// one history; in a child of its own if it may quit
static void History(vf::Rng& r, bool live, bool quits, int quit_sink) {
  std::map<int, std::unique_ptr<Any>> open; std::map<int, Info> info; int next = 1;
  std::map<int, int> style;
  g_msgs.clear();
  int steps = 6 + r.below(30), maxopen = 1 + r.below(6);
  for (int st = 0; st < steps || !open.empty(); ++st) {
    int k = st >= steps ? 9 : r.below(10);
    if (k < 3 && (int)open.size() < maxopen) {
      int id = next++; Info i{}; std::string& msg = g_msgs[id]; msg = r.chance(30) ? "" : Text(r);
      bool q = quits && r.chance(30);
      std::unique_ptr<Any> s;
      if (r.chance(25)) {
        int kind = r.below(4);
        if (quit_sink != (kind == 0 ? 1 : kind == 2 ? 0 : 2)) q = false;
        s = MakeHere(kind, msg, q, i);
      } else {
        int kind = r.below(13), sink = 1 + r.below(4);
        if (q) {
          static const std::vector<int> ks{3, 5, 6, 7, 10, 11};
          sink = quit_sink ? quit_sink : 1; kind = r.of(ks);
          if (quit_sink == 1 && r.chance(30)) kind = 0;
          if (quit_sink == 2 && r.chance(60)) { static const std::vector<int> e{1, 4, 8, 13}; kind = r.of(e); }
          if (quit_sink == 0) kind = r.chance(50) ? 2 : 9;
        }
        s = q ? Make<Q>(kind, sink, msg, Locs(r.below(4)), i) : Make<C>(kind, sink, msg, Locs(r.below(4)), i);
      }
      EmitOpen(id, i, std::move(Rec("open").raw("seen", Seen(live))));
      open[id] = std::move(s); info[id] = i; style[id] = i.check ? 2 : r.below(3);
    } else if (k < 7 && !open.empty()) {
      auto it = open.begin(); std::advance(it, r.below(open.size()));
      auto ps = Parts(r, style[it->first] == 1, style[it->first] == 2 || !info[it->first].quits && r.chance(20) && style[it->first] == 0);
      bool chain = r.chance(60);
      if (!live) Emit(std::move(Rec("stream").num("id", it->first).raw("parts", PartsJson(ps))));
      it->second->Put(ps, chain);
      if (live) Emit(std::move(Rec("stream").num("id", it->first).raw("parts", PartsJson(ps)).raw("seen", Seen(live))));
    } else if (k == 7 && !open.empty()) {
      auto it = open.begin(); std::advance(it, r.below(open.size()));
      std::string t; if (it->second->Peek(t)) Emit(std::move(Rec("peek").bytes("text", t).num("id", it->first)));
    } else if (k == 8 && live) {
      g_conds = g_msgs_evaluated = 0; int n = r.below(1000); bool dangling = false;
      if (n >= 0) MBO_LOG_CHECK(Cond(n < 1000)) << Message() << n; else dangling = true;
      Emit(std::move(Rec("eval").num("conds", g_conds).num("msgs", g_msgs_evaluated).boolean("holds", !dangling).raw("seen", Seen(live))));
    } else if (k == 8 && quits && quit_sink == 2 && r.chance(40)) {
      int id = next++;
      Info i{2, "Failed MBO_LOG_CHECK(Cond(g_conds == -1))", true, true, source_location::current()};
      auto ps = Parts(r, false, false); ps.insert(ps.begin(), Part{'s', "message", 0, 0}); ps.resize(2, Part{'s', "!", 0, 1});
      ps[1] = Part{'n', "", (int)r.below(1000), 0};
      auto l = source_location::current(); unsigned line = 0;
      auto pre = [&] { i.loc = l; Rec o("open");
        o.num("id", id).num("sink", 2).bytes("file", l.file_name()).num("line", line).bytes("func", l.function_name()).bytes("msg", i.msg).boolean("keeps", true).boolean("quits", true).raw("seen", "[]");
        Emit(o); Emit(std::move(Rec("stream").num("id", id).raw("parts", PartsJson(ps)))); Emit(std::move(Rec("close").num("id", id))); };
      g_conds = 5;
      line = __LINE__ + 1; pre();
      MBO_LOG_CHECK(Cond(g_conds == -1)) << Message() << ps[1].v;
      Emit(std::move(Rec("survived"))); return;
    } else if (k == 9 && !open.empty()) {
      auto it = open.begin(); std::advance(it, r.chance(60) ? open.size() - 1 : r.below(open.size()));
      int id = it->first; auto s = std::move(it->second); open.erase(it);
      if (!live) Emit(std::move(Rec("close").num("id", id)));
      s.reset();
      if (info[id].quits) { Emit(std::move(Rec("survived"))); for (auto& [_, p] : open) p.release(); return; }
      if (live) Emit(std::move(Rec("close").num("id", id).raw("seen", Seen(live))));
    }
  }
}
static std::string ReadAll(int fd) {
  std::string s; char b[65536]; lseek(fd, 0, SEEK_SET); ssize_t n;
  while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n);
  return s;
}
int main(int argc, char** argv) {
  int seed = argc > 1 ? atoi(argv[1]) : 1; bool thorough = argc > 2 && std::string(argv[2]) == "thorough";
  // quitting histories first: the children need the real standard streams
  std::ostream s3(&g_buf[3]), s4(&g_buf[4]);
  g_sink[0] = g_sink[1] = &std::cout; g_sink[2] = &std::cerr; g_sink[3] = &s3; g_sink[4] = &s4;
  int runs = thorough ? 6000 : 1200;
  for (int h = 0; h < runs; ++h) {
    int fd[5]; for (int i = 1; i < 5; ++i) if ((fd[i] = memfd_create("vf", 0)) < 0) return 97;
    Emit(std::move(Rec("reset").num("id", h).boolean("live", false)));
    pid_t pid = fork();
    if (pid < 0) return 97;
    if (pid == 0) {
      g_fd = fcntl(1, F_DUPFD, 10);
      dup2(fd[1], 1); dup2(fd[2], 2);
      vf::Rng r(seed * 100003 + h);
      int quit_sink = r.chance(15) ? 0 : r.chance(45) ? 2 : 1 + r.below(4);
      if (quit_sink != 1 && quit_sink != 2) setvbuf(stdout, nullptr, _IONBF, 0);
      for (int i = 3; i < 5; ++i) { g_buf[i].fd = fd[i]; g_buf[i].buffered = i == quit_sink; }
      atexit([] { Emit(std::move(Rec("survived"))); });  // not how a failed check ends the program
      History(r, false, true, quit_sink);
      std::cout.flush(); fflush(stdout); s3.flush(); s4.flush();
      _exit(0);
    }
    int st = 0; if (waitpid(pid, &st, 0) != pid) return 97;
    Rec e("end");
    if (WIFEXITED(st) && WEXITSTATUS(st) == 97) return 97;
    e.num("fate", WIFEXITED(st) ? WEXITSTATUS(st) == 0 ? 0 : WEXITSTATUS(st) : 1000 + WTERMSIG(st));
    std::string outs = "[";
    for (int i = 1; i < 5; ++i) { outs += (i > 1 ? "," : "") + Rec::arrayed(ReadAll(fd[i])); close(fd[i]); }
    Emit(std::move(e.raw("outs", outs + "]")));
  }
  auto* o = std::cout.rdbuf(&g_str[1]); auto* er = std::cerr.rdbuf(&g_str[2]);
  s3.rdbuf(&g_str[3]); s4.rdbuf(&g_str[4]);
  for (int h = 0; h < (thorough ? 6000 : 1500); ++h) {
    for (int i = 1; i < 5; ++i) { g_str[i].str(""); g_seen[i].clear(); }
    Emit(std::move(Rec("reset").num("id", h).boolean("live", true)));
    vf::Rng r(seed * 200003 + h);
    History(r, true, false, 0);
    std::string outs = "[";
    for (int i = 1; i < 5; ++i) outs += (i > 1 ? "," : "") + Rec::arrayed(g_str[i].str());
    Emit(std::move(Rec("end").num("fate", 0).raw("outs", outs + "]")));
  }
  std::cout.rdbuf(o); std::cerr.rdbuf(er);
  return 0;
}
