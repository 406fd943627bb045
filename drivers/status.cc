// Histories of status builders and of functions passing statuses on, recorded for StatusBuildTrace.
#include <iomanip>
#include <memory>
#include <optional>
#include <tuple>
#include "mbo/status/status.h"
#include "mbo/status/status_builder.h"
#include "mbo/status/status_macros.h"
#include "trace.h"

namespace {
using vf::Rec;
using vf::Rng;
using mbo::status::StatusBuilder;

struct St { int code = 0; std::string msg; std::vector<std::pair<std::string, std::string>> pays; };

std::string Json(const St& s) {
  std::string r = "{\"code\":" + std::to_string(s.code) + ",\"msg\":" + Rec::arrayed(s.msg) + ",\"pays\":[";
  bool f = true;
  for (const auto& [u, c] : s.pays) { if (!f) r += ','; f = false; r += "[" + Rec::arrayed(u) + "," + Rec::arrayed(c) + "]"; }
  return r + "]}";
}
St Of(const absl::Status& s) {
  St r{(int)s.code(), std::string(s.message()), {}};
  s.ForEachPayload([&](std::string_view u, const absl::Cord& c) { r.pays.emplace_back(std::string(u), std::string(c)); });
  return r;
}
absl::Status Real(const St& s) {
  absl::Status r((absl::StatusCode)s.code, s.msg);
  for (const auto& [u, c] : s.pays) r.SetPayload(u, absl::Cord(c));
  return r;
}
std::string Text(Rng& r) {
  static const std::vector<std::string> kAll{"", "a", "<Error>", "x y", ": ", "%s", "{}", "\n", std::string("n\0l", 3), "\xC3\xA4", "Append", "0", "some longer text that is not small, to be sure of it"};
  return r.of(kAll);
}
St RandomSt(Rng& r, int okpercent) {
  St s;
  if (r.chance(okpercent)) return s;
  s.code = 1 + (int)r.below(16);
  s.msg = Text(r);
  size_t n = r.chance(50) ? 0 : r.below(3);
  for (size_t i = 0; i < n; ++i) s.pays.emplace_back("url" + std::to_string(i), Text(r));
  return s;
}
std::string Jsons(const std::vector<absl::Status>& v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); ++i) { if (i) r += ','; r += Json(Of(v[i])); }
  return r + "]";
}

// ------------------------------------------------------------------ builders
void Oks(Rec& rec, const StatusBuilder (&b)[3]) {
  rec.raw("oks", std::string("[") + (b[0].ok() ? "true" : "false") + "," + (b[1].ok() ? "true" : "false") + "," + (b[2].ok() ? "true" : "false") + "]").emit();
}

void Histories(Rng& r, int id) {
  vf::Reset(id);
  StatusBuilder b[3];
  const int steps = 3 + (int)r.below(18);
  for (int s = 0; s < steps; ++s) {
    const int i = (int)r.below(3);
    switch (s == 0 ? 0 : r.below(13)) {
      case 0: {
        const St st = RandomSt(r, 15);
        absl::Status left;
        bool taken = false;
        switch (r.below(st.code ? 6 : 7)) {
          case 0: { const absl::Status x = Real(st); b[i] = StatusBuilder(x); left = x; break; }
          case 1: { absl::Status x = Real(st); b[i] = StatusBuilder(x); left = x; break; }
          case 2: { absl::Status x = Real(st); b[i] = StatusBuilder(std::move(x)); left = x; taken = true; break; }  // NOLINT
          case 3: { const absl::StatusOr<int> x = st.code ? absl::StatusOr<int>(Real(st)) : absl::StatusOr<int>(3); b[i] = StatusBuilder(x); left = x.status(); break; }
          case 4: { absl::StatusOr<std::string> x = st.code ? absl::StatusOr<std::string>(Real(st)) : absl::StatusOr<std::string>("v"); b[i] = StatusBuilder(x); left = x.status(); break; }
          case 5: { absl::StatusOr<std::unique_ptr<int>> x = st.code ? absl::StatusOr<std::unique_ptr<int>>(Real(st)) : absl::StatusOr<std::unique_ptr<int>>(std::make_unique<int>(1));
                    b[i] = StatusBuilder(std::move(x)); left = x.ok() ? absl::OkStatus() : x.status(); taken = true; break; }  // NOLINT
          case 6: b[i] = StatusBuilder(); break;
        }
        Rec rec("make");
        rec.num("i", i + 1).raw("st", Json(st)).raw("left", Json(Of(left))).boolean("taken", taken);
        Oks(rec, b);
        break;
      }
      case 1: case 2: case 3: {
        const std::string t = Text(r);
        switch (r.below(5)) {
          case 0: b[i] << t; break;
          case 1: b[i] << std::string_view(t); break;
          case 2: b[i] = std::move(b[i]) << t; break;
          case 3: b[i] << (t + t).substr(0, t.size()); break;
          case 4: if (t.size() == 1) { b[i] << t[0]; } else { b[i] << t; } break;
        }
        Rec rec("text");
        rec.num("i", i + 1).bytes("text", t);
        Oks(rec, b);
        break;
      }
      case 4: {
        const unsigned u = (unsigned)r.below(70000);
        switch (r.below(4)) {
          case 0: b[i] << u; break;
          case 1: b[i] << (uint64_t)u; break;
          case 2: b[i] = std::move(b[i]) << u; break;
          case 3: b[i] << (int)u; break;
        }
        Rec rec("num");
        rec.num("i", i + 1).num("v", (int)u);
        Oks(rec, b);
        break;
      }
      case 5: {
        std::string what;
        int v = 0;
        switch (r.below(4)) {
          case 0: what = "base"; v = 16; b[i] << std::hex; break;
          case 1: what = "base"; v = 10; b[i] << std::dec; break;
          case 2: what = "width"; v = (int)r.below(7); b[i] << std::setw(v); break;
          case 3: what = "fill"; v = r.chance(50) ? '*' : ' '; b[i] << std::setfill((char)v); break;
        }
        Rec rec("form");
        rec.num("i", i + 1).str("what", what).num("v", v);
        Oks(rec, b);
        break;
      }
      case 6: {
        if (r.chance(50)) b[i].SetPrepend(); else b[i] = std::move(b[i]).SetPrepend();
        Rec rec("prepend");
        rec.num("i", i + 1);
        Oks(rec, b);
        break;
      }
      case 7: case 8: {
        switch (r.below(4)) {
          case 0: b[i].SetAppend(); break;
          case 1: b[i] = std::move(b[i]).SetAppend(); break;
          case 2: b[i] << StatusBuilder::Append; break;
          case 3: b[i] = std::move(b[i]) << StatusBuilder::Append; break;
        }
        Rec rec("append");
        rec.num("i", i + 1);
        Oks(rec, b);
        break;
      }
      case 9: {
        const std::string url = "url" + std::to_string(r.below(4)), c = Text(r);
        switch (r.below(7)) {
          case 0: b[i].SetPayload(url, c); break;
          case 1: b[i].SetPayload(url, std::string_view(c)); break;
          case 2: b[i].SetPayload(url, absl::Cord(c)); break;
          case 3: { const absl::Cord k(c); b[i].SetPayload(url, k); break; }
          case 4: b[i] = std::move(b[i]).SetPayload(url, c); break;
          case 5: b[i] = std::move(b[i]).SetPayload(url, std::string_view(c)); break;
          case 6: b[i] = std::move(b[i]).SetPayload(url, absl::Cord(c)); break;
        }
        Rec rec("pay");
        rec.num("i", i + 1).bytes("url", url).bytes("c", c);
        Oks(rec, b);
        break;
      }
      case 10: {
        const int to = (i + 1 + (int)r.below(2)) % 3;
        if (r.chance(50)) { b[to] = std::move(b[i]); } else { StatusBuilder n(std::move(b[i])); b[to] = std::move(n); }
        Rec rec("move");
        rec.num("i", i + 1).num("to", to + 1);
        Oks(rec, b);
        break;
      }
      case 11: {
        std::vector<absl::Status> v;
        v.push_back(absl::Status(b[i]));
        const StatusBuilder& c = b[i];
        v.push_back(static_cast<absl::Status>(c));
        v.push_back(mbo::status::GetStatus(c));
        if (r.chance(40)) { absl::Status x = std::move(b[i]); v.push_back(x); v.push_back(static_cast<absl::Status>(b[i])); }  // converted, not moved from
        Rec rec("get");
        rec.num("i", i + 1).raw("sts", Jsons(v));
        Oks(rec, b);
        break;
      }
      case 12: {
        const St st = RandomSt(r, 30);
        const absl::Status x = Real(st);
        absl::Status y = x;
        const absl::StatusOr<int> o = st.code ? absl::StatusOr<int>(x) : absl::StatusOr<int>(5);
        absl::StatusOr<std::unique_ptr<int>> u = st.code ? absl::StatusOr<std::unique_ptr<int>>(x) : absl::StatusOr<std::unique_ptr<int>>(std::make_unique<int>(5));
        std::vector<absl::Status> v{mbo::status::GetStatus(x), mbo::status::GetStatus(y), mbo::status::GetStatus(absl::Status(x)), mbo::status::GetStatus(o), mbo::status::GetStatus(u),
                                    mbo::status::GetStatus(absl::StatusOr<int>(o)), mbo::status::GetStatus(StatusBuilder(x)), mbo::status::GetStatus(std::move(y)), mbo::status::GetStatus(std::move(u))};
        v.push_back(x);
        v.push_back(o.status());
        Rec("conv").raw("st", Json(st)).raw("sts", Jsons(v)).emit();
        break;
      }
    }
  }
  for (int i = 0; i < 3; ++i) {
    if (r.chance(15) && !b[i].ok()) {
      // text that cannot be written, at the end (what follows in a failed stream is not looked at)
      const bool app = r.chance(70);
      b[i] << static_cast<const char*>(nullptr);
      if (app) b[i] << StatusBuilder::Append;
      Rec rec("spoil");
      rec.num("i", i + 1).num("mode", app ? 2 : 0);
      Oks(rec, b);
    }
    Rec rec("get");
    rec.num("i", i + 1).raw("sts", Jsons({absl::Status(b[i])}));
    Oks(rec, b);
  }
}

// --------------------------------------------------------------------- calls
int g_live = 0;
struct Val {  // can only be moved, is counted
  std::optional<int> v;
  explicit Val(int x) : v(x) { ++g_live; }
  Val(Val&& o) noexcept : v(o.v) { o.v.reset(); ++g_live; }
  Val& operator=(Val&& o) noexcept { v = o.v; if (&o != this) o.v.reset(); return *this; }
  ~Val() { --g_live; }
};
struct Step {
  bool leaf = true;
  int id = 0, value = 0, how = 0, macro = 0;
  bool takes = false;
  St st;
  std::string pre, suf;
  std::vector<Step> steps;
};
std::string Json(const std::vector<Step>& v);
std::string Json(const Step& s) {
  return std::string("{\"leaf\":") + (s.leaf ? "true" : "false") + ",\"id\":" + std::to_string(s.id) + ",\"value\":" + std::to_string(s.value) + ",\"how\":" + std::to_string(s.how)
         + ",\"macro\":" + std::to_string(s.macro) + ",\"takes\":" + (s.takes ? "true" : "false") + ",\"st\":" + Json(s.st) + ",\"pre\":" + Rec::arrayed(s.pre) + ",\"suf\":" + Rec::arrayed(s.suf)
         + ",\"steps\":" + Json(s.steps) + "}";
}
std::string Json(const std::vector<Step>& v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); ++i) { if (i) r += ','; r += Json(v[i]); }
  return r + "]";
}
std::vector<int> g_log;

absl::StatusOr<int> Level(const std::vector<Step>& steps);
absl::Status LevelTo(const std::vector<Step>& steps, int& sum);

absl::StatusOr<int> CallInt(const Step& s) {
  g_log.push_back(s.id);
  if (s.leaf) {
    if (s.st.code) return Real(s.st);
    return s.value;
  }
  return Level(s.steps);
}
absl::Status CallStatus(const Step& s, int& sum) {
  if (s.leaf) { g_log.push_back(s.id); sum = s.value; return Real(s.st); }
  g_log.push_back(s.id);
  return LevelTo(s.steps, sum);
}
absl::StatusOr<Val> CallVal(const Step& s) {
  absl::StatusOr<int> r = CallInt(s);
  if (!r.ok()) return r.status();
  return Val(*r);
}
absl::StatusOr<std::pair<int, int>> CallPair(const Step& s, int less) {
  absl::StatusOr<int> r = CallInt(s);
  if (!r.ok()) return r.status();
  return std::make_pair(*r - less, less);
}

// All statements of a level; instantiated for both ways of answering.
#define STEP(x, sum)                                                                                                            \
  switch ((x).macro) {                                                                                                          \
    case 0: { MBO_RETURN_IF_ERROR(CallInt(x)); break; }                                                                         \
    case 1: { absl::StatusOr<int> got = CallInt(x); MBO_RETURN_IF_ERROR(got); sum += *got; break; }                             \
    case 2: { const absl::StatusOr<int> got = CallInt(x); MBO_RETURN_IF_ERROR(got); sum += *got; break; }                       \
    case 3: { int v = 0; MBO_RETURN_IF_ERROR(CallStatus(x, v)); sum += v; break; }                                              \
    case 4: { MBO_ASSIGN_OR_RETURN(int v, CallInt(x)); sum += v; break; }                                                       \
    case 5: { int v = -1; MBO_ASSIGN_OR_RETURN(v, CallInt(x)); sum += v; break; }                                               \
    case 6: { MBO_ASSIGN_OR_RETURN(const Val v, CallVal(x)); sum += v.v.value(); break; }                                       \
    case 7: { MBO_MOVE_TO_OR_RETURN(CallPair(x, 4), auto [one, two]); sum += one + two; break; }                                \
    case 8: { MBO_MOVE_TO_OR_RETURN(CallPair(x, (1, 7)), std::pair<int, int> both); sum += both.first + both.second; break; }    \
    case 9: { int one = 0, two = 0; MBO_MOVE_TO_OR_RETURN(CallPair(x, 2), std::tie(one, two)); sum += one + two; break; }       \
    case 10: { const absl::StatusOr<int> got = CallInt(x); MBO_ASSIGN_OR_RETURN(int v, got); sum += v + got.value() - v; break; } \
    case 11: { std::optional<Val> v; MBO_ASSIGN_OR_RETURN(v, CallVal(x)); sum += v->v.value(); break; }                         \
    case 12: { const int yes = (x).id; if (yes > 0) MBO_RETURN_IF_ERROR(CallInt(x)); else sum += 1000; break; }                 \
    case 13: { std::vector<Val> vs; for (int k = 0; k < 1; ++k) { MBO_ASSIGN_OR_RETURN(Val v, CallVal(x)); vs.push_back(std::move(v)); } sum += vs[0].v.value(); break; } \
    case 20: { int v = 0; const std::string var = (x).pre; MBO_RETURN_IF_ERROR(CallStatus(x, v)) << var; break; }               \
    case 21: { MBO_RETURN_IF_ERROR(CallInt(x)) << (x).pre; break; }                                                             \
    case 22: { int v = 0; MBO_RETURN_IF_ERROR(CallStatus(x, v)) << (x).pre << ""; sum += v; break; }                            \
    case 23: { MBO_RETURN_IF_ERROR(CallInt(x)).SetPrepend() << (x).pre; break; }                                                \
    case 24: { int v = 0; MBO_RETURN_IF_ERROR(CallStatus(x, v)).SetPrepend() << (x).pre; sum += v; break; }                     \
    case 25: { MBO_RETURN_IF_ERROR(CallInt(x)).SetPrepend() << (x).pre << StatusBuilder::Append << (x).suf; break; }            \
    case 26: { int res = 0; const int expr = 1, msg = 2, status = 3; MBO_RETURN_IF_ERROR(CallStatus(x, res)).SetPrepend() << (x).pre << StatusBuilder::Append << (x).suf; sum += res + expr + msg - status; break; } \
    case 27: { MBO_RETURN_IF_ERROR(CallInt(x)).SetAppend() << (x).suf; break; }                                                 \
    case 28: { int v = 0; MBO_RETURN_IF_ERROR(CallStatus(x, v)) << StatusBuilder::Append << (x).suf; sum += v; break; }         \
    case 29: { MBO_RETURN_IF_ERROR(CallInt(x)).SetAppend().SetPayload((x).pre, (x).suf) << (x).suf; break; }                    \
    case 30: { absl::StatusOr<int> got = CallInt(x); MBO_RETURN_IF_ERROR(got).SetPayload((x).pre, absl::Cord((x).suf)).SetAppend() << (x).suf; sum += *got; break; } \
  }
struct Kind { int macro; int how; bool takes; };
const std::vector<Kind> kKinds{{0, 0, false}, {1, 0, true}, {2, 0, true}, {3, 0, true}, {4, 0, true}, {5, 0, true}, {6, 0, true}, {7, 0, true}, {8, 0, true}, {9, 0, true},
                               {10, 0, true}, {11, 0, true}, {12, 0, false}, {13, 0, true}, {20, 1, false}, {21, 1, false}, {22, 1, true}, {23, 2, false}, {24, 2, true},
                               {25, 3, false}, {26, 3, true}, {27, 4, false}, {28, 4, true}, {29, 5, false}, {30, 5, true}};

absl::StatusOr<int> Level(const std::vector<Step>& steps) {
  int sum = 0;
  for (const Step& x : steps) STEP(x, sum)
  return sum;
}
absl::Status LevelTo(const std::vector<Step>& steps, int& total) {
  int sum = 0;
  for (const Step& x : steps) STEP(x, sum)
  total = sum;
  return absl::OkStatus();
}

std::vector<Step> RandomSteps(Rng& r, int depth, int& id) {
  std::vector<Step> v;
  const size_t n = r.below(4) + (depth == 0);
  for (size_t k = 0; k < n; ++k) {
    Step s;
    const Kind& kind = r.of(kKinds);
    s.id = ++id;
    s.macro = kind.macro;
    s.how = kind.how;
    s.takes = kind.takes;
    s.pre = Text(r);
    s.suf = Text(r);
    s.leaf = depth >= 4 || r.chance(60);
    if (s.leaf) {
      s.st = RandomSt(r, 88);
      s.value = s.st.code ? 0 : (int)r.below(100);
    } else {
      s.steps = RandomSteps(r, depth + 1, id);
    }
    v.push_back(std::move(s));
  }
  return v;
}
void Runs(Rng& r) {
  int id = 0;
  const std::vector<Step> prog = RandomSteps(r, 0, id);
  g_log.clear();
  int sum = 0;
  absl::Status st;
  if (r.chance(50)) {
    st = LevelTo(prog, sum);
  } else {
    absl::StatusOr<int> got = Level(prog);
    st = got.status();
    if (got.ok()) sum = *got;
  }
  Rec("run").raw("steps", Json(prog)).raw("st", Json(Of(st))).nums("log", g_log).num("sum", sum).num("live", g_live).emit();
}
}  // namespace

int main(int argc, char** argv) {
  Rng r(std::strtoull(argv[1], nullptr, 10));
  const bool thorough = argc > 2 && std::string_view(argv[2]) == "thorough";
  const int n = thorough ? 20000 : 3000;
  for (int i = 0; i < n; ++i) {
    Histories(r, i);
    Runs(r);
  }
}
