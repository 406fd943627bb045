// X01..X03: diffs of texts under every algorithm, format and option.
#include <limits>
#include <optional>
#include "mbo/diff/diff.h"
#include "mbo/diff/diff_options.h"
#include "mbo/file/artefact.h"
#include "trace.h"
using mbo::diff::DiffOptions;
using mbo::file::Artefact;
using vf::Rec;
using vf::Rng;
using std::string;
using std::vector;
static bool thorough;
static constexpr size_t kHuge = 1000000;
struct Po { string stop, stopstr; };
struct O {
  bool all = false, multi = false, trail = false, trim = false, fold = false, nonl = false, chunks = true, blank = false;
  string strip = "none", mark, match = "none", lkind = "none", lby, rkind = "none", rby;
  Po po;
  string json() const {
    auto b = [](bool x) { return string(x ? "true" : "false"); };
    auto rr = [](const string& k, const string& by) { return "{\"kind\":" + Rec::quoted(k) + ",\"by\":" + Rec::arrayed(by) + "}"; };
    return "{\"all\":" + b(all) + ",\"multi\":" + b(multi) + ",\"trail\":" + b(trail) + ",\"trim\":" + b(trim) + ",\"fold\":" + b(fold) + ",\"nonl\":" + b(nonl) + ",\"chunks\":" + b(chunks) + ",\"blank\":" + b(blank) +
           ",\"strip\":" + Rec::quoted(strip) + ",\"mark\":" + Rec::arrayed(mark) + ",\"match\":" + Rec::quoted(match) + ",\"rl\":" + rr(lkind, lby) + ",\"rr\":" + rr(rkind, rby) +
           ",\"po\":{\"stop\":" + Rec::arrayed(po.stop) + ",\"stopstr\":" + Rec::arrayed(po.stopstr) + ",\"split\":[],\"esc\":" + Rec::arrayed("(){}[]<>,;&") + ",\"dq\":true,\"sq\":true,\"rmq\":true,\"unq\":true}}";
  }
};
static const char* Regex(const string& kind) { return kind == "digits" ? "[0-9]+" : kind == "hash" ? "^#" : kind == "empty" ? "^$" : ".$"; }
static void Set(DiffOptions& d, const O& o) {
  d.ignore_all_space = o.all; d.ignore_consecutive_space = o.multi; d.ignore_trailing_space = o.trail; d.ignore_case = o.fold; d.ignore_missing_final_newline = o.nonl;
  d.ignore_matching_chunks = o.chunks; d.ignore_blank_lines = o.blank;
  if (o.strip == "line") d.strip_comments = mbo::strings::StripCommentArgs{.comment_start = o.mark, .strip_trailing_whitespace = o.trim};
  if (o.strip == "parsed") {
    mbo::strings::StripParsedCommentArgs a;
    a.parse = {.stop_at_any_of = o.po.stop, .stop_at_str = o.po.stopstr, .split_at_any_of = "", .custom_escapes = "(){}[]<>,;&"};
    a.strip_trailing_whitespace = o.trim;
    d.strip_comments = a;
  }
  if (o.match != "none") d.ignore_matching_lines.emplace(Regex(o.match));
  if (o.lkind != "none") d.regex_replace_lhs = DiffOptions::RegexReplace{std::make_unique<RE2>(Regex(o.lkind)), o.lby};
  if (o.rkind != "none") d.regex_replace_rhs = DiffOptions::RegexReplace{std::make_unique<RE2>(Regex(o.rkind)), o.rby};
}
static DiffOptions::Algorithm Alg(const string& a) { return a == "direct" ? DiffOptions::Algorithm::kDirect : a == "naive" ? DiffOptions::Algorithm::kNaive : DiffOptions::Algorithm::kMyers; }
static DiffOptions::OutputFormat Fmt(const string& f) {
  return f == "context" ? DiffOptions::OutputFormat::kContext : f == "normal" ? DiffOptions::OutputFormat::kNormal : f == "side" ? DiffOptions::OutputFormat::kSideBySide : DiffOptions::OutputFormat::kUnified;
}
// reads unified output into hunks
static const string kMark = "\\ No newline at end of file";
static string Hunks(const string& out) {
  string js = "["; size_t p = 0; bool open = false, first = true, fe = true;
  vector<string> lines;
  while (p < out.size()) { size_t q = out.find('\n', p); if (q == string::npos) q = out.size(); lines.push_back(out.substr(p, q - p)); p = q + 1; }
  for (size_t i = 0; i < lines.size(); ++i) {
    const string& s = lines[i];
    if (s.rfind("@@ -", 0) == 0) {
      // @@ -l[,n] +r[,n] @@
      auto at = [&](size_t& k) { long v = 0; while (k < s.size() && isdigit((unsigned char)s[k]) && v < 100000000) v = v * 10 + (s[k++] - '0'); return v; };
      size_t k = 4; long l = at(k), ln = 1, r, rn = 1;
      if (k < s.size() && s[k] == ',') { ++k; ln = at(k); }
      k += 2; r = at(k);
      if (k < s.size() && s[k] == ',') { ++k; rn = at(k); }
      if (open) js += "]}";
      js += string(first ? "" : ",") + "{\"l\":" + std::to_string(ln == 0 ? l : l - 1) + ",\"r\":" + std::to_string(rn == 0 ? r : r - 1) + ",\"e\":[";
      open = true; first = false; fe = true;
    } else if (!s.empty() && (s[0] == ' ' || s[0] == '-' || s[0] == '+') && open) {
      bool bare = i + 1 < lines.size() && lines[i + 1] == kMark;
      js += string(fe ? "" : ",") + "[" + (s[0] == ' ' ? "0" : s[0] == '-' ? "1" : "2") + "," + Rec::arrayed(std::string_view(s).substr(1)) + "," + (bare ? "false" : "true") + "]";
      fe = false;
      if (bare) ++i;
    } else {
      return "[]";  // not what it should be: told by the bytes
    }
  }
  if (open) js += "]}";
  return js + "]";
}
struct Out { string fmt; size_t c; size_t width = 130; bool hdr = true, skip = false; };
static bool ok;
static string Run(const string& l, const string& r, const string& alg, bool minimal, const O& o, const Out& x) {
  DiffOptions d; Set(d, o);
  d.algorithm = Alg(alg); d.minimal = minimal; d.output_format = Fmt(x.fmt); d.context_size = x.c == kHuge ? std::numeric_limits<size_t>::max() / 2 : x.c; d.side_by_side_width = x.width;
  d.show_chunk_headers = x.hdr; d.skip_left_deletions = x.skip; d.file_header_use = DiffOptions::FileHeaderUse::kNone;
  auto v = mbo::diff::Diff::FileDiff({.data = l, .name = "l"}, {.data = r, .name = "r"}, d);
  if (!v.ok()) { ok = false; return ""; }
  return *v;
}
static void Diff(const string& l, const string& r, const string& alg, bool minimal, const O& o, const vector<Out>& outs, bool exact) {
  ok = true;
  string big = Run(l, r, alg, minimal, o, {.fmt = "unified", .c = kHuge});
  string js = "[";
  for (const auto& x : outs) {
    string s = Run(l, r, alg, minimal, o, x);
    js += string(js.size() > 1 ? "," : "") + "{\"fmt\":" + Rec::quoted(x.fmt) + ",\"c\":" + std::to_string(x.c) + ",\"width\":" + std::to_string(x.width) + ",\"hdr\":" + (x.hdr ? "true" : "false") + ",\"skip\":" + (x.skip ? "true" : "false") + ",\"out\":" + Rec::arrayed(s) + "}";
  }
  Rec("diff").str("alg", alg).boolean("least", minimal && alg == "myers").boolean("least64", alg == "myers").boolean("exact", exact).raw("o", o.json()).bytes("L", l).bytes("R", r).boolean("ok", ok).bytes("bout", big).raw("big", Hunks(big)).raw("outs", js + "]").emit();
}
static const vector<string> kAlgs{"myers", "naive", "direct"};
static string Join(const vector<string>& v, bool nl) { string s; for (size_t i = 0; i < v.size(); ++i) { s += v[i]; if (i + 1 < v.size() || nl) s += '\n'; } return s; }
static vector<string> Texts(int max) {
  vector<string> out; vector<string> cur;
  std::function<void()> go = [&] { out.push_back(Join(cur, true)); if (!cur.empty()) out.push_back(Join(cur, false)); if ((int)cur.size() < max) for (const char* c : {"a", "b"}) { cur.push_back(c); go(); cur.pop_back(); } };
  go();
  return out;
}
static vector<string> RandText(Rng& r, const vector<string>& pool, int n) { vector<string> v; for (int i = 0; i < n; ++i) v.push_back(r.of(pool)); return v; }
static vector<string> Edit(Rng& r, vector<string> v, const vector<string>& pool, int edits) {
  for (int i = 0; i < edits; ++i) {
    size_t p = r.below(v.size() + 1);
    switch (r.below(5)) {
      case 0: v.insert(v.begin() + p, r.of(pool)); break;
      case 1: if (p < v.size()) v.erase(v.begin() + p); break;
      case 2: if (p < v.size()) v[p] = r.of(pool); break;
      case 3: { size_t n = std::min<size_t>(v.size() - p, r.below(4)); v.erase(v.begin() + p, v.begin() + p + n); break; }
      default: { size_t n = std::min<size_t>(v.size() - p, 1 + r.below(4)); vector<string> b(v.begin() + p, v.begin() + p + n); v.erase(v.begin() + p, v.begin() + p + n); size_t q = r.below(v.size() + 1); v.insert(v.begin() + q, b.begin(), b.end()); }
    }
  }
  return v;
}
static vector<string> Pool(Rng& r, int n) {
  static const vector<string> odd{"", " ", "-", "+", "--- a", "+++ b", "@@ -1 +1 @@", "\\ No newline at end of file", "x\r", "\t\ttab", "  two", "a rather long line that does not fit into a narrow column", "***************", "< a", "> b", "1c1", "---", "!", string("\xC3\xA4\xFF", 3), string("n\0l", 3), "tail   "};
  vector<string> p;
  for (int i = 0; i < n; ++i) p.push_back(r.chance(35) ? r.of(odd) : "l" + std::to_string(i));
  return p;
}
static void Headers(Rng& r) {
  static const vector<string> names{"", "a/f.txt", "b/f.txt", "x/y/z.h", "plain", "/abs/path", "a/", "c\nd"};
  static const vector<std::pair<string, string>> hows{{"plain", ""}, {"plain", "a/"}, {"plain", "x/y/"}, {"plain", "plain"}, {"plain", "zz"}, {"dirs", ".*/"}, {"one", "[^/]*/"}, {"alt", "(a|b)/"}};
  for (const auto& fmt : {"unified", "context", "normal", "side"})
    for (auto [use, un] : vector<std::pair<DiffOptions::FileHeaderUse, const char*>>{{DiffOptions::FileHeaderUse::kNone, "none"}, {DiffOptions::FileHeaderUse::kBoth, "both"}, {DiffOptions::FileHeaderUse::kLeft, "left"}, {DiffOptions::FileHeaderUse::kRight, "right"}})
      for (const auto& alg : kAlgs)
        for (int i = 0; i < (thorough ? 60 : 10); ++i) {
          string l = r.chance(20) ? "a\n" : "a\nb", rr = r.chance(50) ? l : "b\n", ln = r.of(names), rn = r.of(names);
          auto how = r.of(hows); string time = r.chance(60) ? "" : "T";
          DiffOptions d, n;
          d.algorithm = n.algorithm = Alg(alg); d.output_format = n.output_format = Fmt(fmt); d.file_header_use = use; d.strip_file_header_prefix = how.second; d.time_format = time;
          n.file_header_use = DiffOptions::FileHeaderUse::kNone;
          auto v = mbo::diff::Diff::FileDiff({.data = l, .name = ln}, {.data = rr, .name = rn}, d), w = mbo::diff::Diff::FileDiff({.data = l, .name = ln}, {.data = rr, .name = rn}, n);
          bool good = v.ok() && w.ok() && v->size() >= w->size() && v->substr(v->size() - w->size()) == *w;
          Rec("header").str("fmt", fmt).str("use", un).str("alg", alg).bytes("L", l).bytes("R", rr).bytes("lname", ln).bytes("rname", rn).raw("how", "{\"kind\":" + Rec::quoted(how.first) + ",\"text\":" + Rec::arrayed(how.second) + "}").bytes("time", time)
              .boolean("ok", good).bytes("head", good ? v->substr(0, v->size() - w->size()) : "").emit();
        }
}
static void X01(uint64_t seed) {
  auto ts = Texts(thorough ? 4 : 3);
  for (const auto& l : ts) for (const auto& r : ts) for (const auto& a : kAlgs) {
    vector<Out> outs;
    for (size_t c : {0, 1, 2}) { if (c == 2 && !thorough) continue; for (const char* f : {"unified", "context", "normal", "side"}) if (thorough || c == 0 || string(f) == "unified") outs.push_back({.fmt = f, .c = c, .width = 11}); }
    Diff(l, r, a, false, {}, outs, true);
  }
  Rng r(seed);
  for (int i = 0; i < (thorough ? 6000 : 700); ++i) {
    auto pool = Pool(r, 1 + r.below(r.chance(50) ? 4 : 20));
    auto l = RandText(r, pool, r.below(r.chance(70) ? 14 : 60)), rr = r.chance(75) ? Edit(r, l, pool, r.below(r.chance(70) ? 4 : 15)) : RandText(r, pool, r.below(20));
    // far-apart changes, so that hunks meet or do not
    if (r.chance(30)) { l.clear(); for (int k = 0; k < 30; ++k) l.push_back("l" + std::to_string(k)); rr = l; for (int k = 0, n = 1 + r.below(4); k < n; ++k) { size_t p = r.below(rr.size()); if (r.chance(50)) rr[p] = "new"; else if (r.chance(50)) rr.erase(rr.begin() + p); else rr.insert(rr.begin() + p, "more"); } }
    string a = Join(l, r.chance(70)), b = Join(rr, r.chance(70));
    static const vector<size_t> cs{0, 1, 2, 3, 4, 5, 7, 12, kHuge};
    static const vector<size_t> ws{0, 1, 3, 4, 5, 6, 7, 10, 20, 40, 130};
    vector<Out> outs;
    outs.push_back({.fmt = "unified", .c = r.of(cs)});
    for (const char* f : {"unified", "context", "normal", "side"}) outs.push_back({.fmt = f, .c = r.of(cs), .width = r.of(ws), .hdr = !r.chance(15)});
    Diff(a, b, r.of(kAlgs), r.chance(20), {}, outs, true);
  }
  // identical texts
  for (const char* t : {"", "a", "a\n", "\n", "\n\n", "a\nb"}) for (const auto& a : kAlgs) Diff(t, t, a, false, {}, {{.fmt = "unified", .c = 3}, {.fmt = "context", .c = 0}, {.fmt = "normal", .c = 0}, {.fmt = "side", .c = kHuge}}, true);
  Headers(r);
  for (const char* s : {"direct", "myers", "naive", "unified", "", "Myers", "context", "normal", "side-by-side", "side", "both", "left", "none", "right", "x"}) {
    auto al = DiffOptions::ParseAlgorithmFlag(s);
    Rec("flag").str("what", "alg").str("in", s).str("val", !al ? "" : *al == DiffOptions::Algorithm::kDirect ? "direct" : *al == DiffOptions::Algorithm::kMyers ? "myers" : "naive").emit();
    auto of = DiffOptions::ParseOutputFormatFlag(s);
    Rec("flag").str("what", "fmt").str("in", s).str("val", !of ? "" : *of == DiffOptions::OutputFormat::kUnified ? "unified" : *of == DiffOptions::OutputFormat::kContext ? "context" : *of == DiffOptions::OutputFormat::kNormal ? "normal" : "side-by-side").emit();
    auto fh = DiffOptions::ParseFileHeaderUse(s);
    Rec("flag").str("what", "use").str("in", s).str("val", !fh ? "" : *fh == DiffOptions::FileHeaderUse::kNone ? "none" : *fh == DiffOptions::FileHeaderUse::kBoth ? "both" : *fh == DiffOptions::FileHeaderUse::kLeft ? "left" : "right").emit();
  }
}
static void Cost(Rng& r, int size, int letters, bool minimal, int shape) {
  vector<string> pool; for (int i = 0; i < letters; ++i) pool.push_back(string(1, (char)('a' + i % 26)) + (i >= 26 ? std::to_string(i / 26) : ""));
  vector<string> l, rr;
  switch (shape) {
    case 0: l = RandText(r, pool, r.below(size + 1)); rr = RandText(r, pool, r.below(size + 1)); break;
    case 1: l = RandText(r, pool, size); rr = Edit(r, l, pool, 1 + r.below(8)); break;
    case 2: l = RandText(r, pool, size); rr = Edit(r, l, pool, size / 2); break;
    case 3: l = RandText(r, pool, size); rr.assign(l.rbegin(), l.rend()); break;
    case 4: l = RandText(r, pool, size); rr = l; std::rotate(rr.begin(), rr.begin() + rr.size() / 3, rr.end()); break;
    case 5: for (int i = 0; i < size; ++i) { l.push_back(pool[i % letters]); rr.push_back(pool[(i * 2 + 1) % letters]); } break;
    case 6: for (int i = 0; i < size; ++i) l.push_back("x" + std::to_string(i)); rr = RandText(r, pool, size / 2); break;  // nothing in common
    default: l = RandText(r, pool, size / 2); rr = l; { auto m = RandText(r, pool, size / 2); rr.insert(rr.begin() + r.below(rr.size() + 1), m.begin(), m.end()); }
  }
  if (r.chance(30)) std::swap(l, rr);
  Diff(Join(l, !r.chance(10)), Join(rr, !r.chance(10)), "myers", minimal, {}, {{.fmt = "unified", .c = 0}}, true);
}
static void X02(uint64_t seed) {
  auto ts = Texts(thorough ? 5 : 4);
  for (const auto& l : ts) for (const auto& r : ts) if (l.empty() || l.back() == '\n' || r.size() < 5) Diff(l, r, "myers", l.size() % 2, {}, {}, true);
  Rng r(seed);
  for (int i = 0; i < (thorough ? 4000 : 500); ++i) Cost(r, 1 + r.below(30), 2 + r.below(6), r.chance(50), r.below(8));
  for (int i = 0; i < (thorough ? 500 : 60); ++i) Cost(r, 60 + r.below(60), 2 + r.below(60), r.chance(60), r.below(8));
  for (int i = 0; i < (thorough ? 60 : 10); ++i) Cost(r, 200 + r.below(150), 2 + r.below(120), true, i % 8);
}
static void X03(uint64_t seed) {
  Rng r(seed);
  static const vector<string> base{"a", "A", "b", "a b", "a  b", "a\tb", " a b", "a b ", "ab", "", " ", "\t", "#", "#x", "# 7", "a # c", "a#9", "x12", "x7 #3", "x7", "'a#b' c", "\"#\" d", "'open # q", "7", "12", "a // d", "// e", "B1b22", "a\\#b", "a\r", "c\v\f d", "a  # c  ", "1", "#1"};
  static const vector<string> alpha{"a", "A", "b", " ", "\t", "#", "'", "7", "1", "//", "  ", "\\"};
  auto line = [&] { if (r.chance(75)) return r.of(base); string s; for (int k = r.below(6); k > 0; --k) s += r.of(alpha); return s; };
  auto variant = [&](string s) {
    switch (r.below(9)) {
      case 0: return s + " ";
      case 1: return " " + s;
      case 2: { string t; for (char c : s) { t += c; if (c == ' ') t += '\t'; } return t; }
      case 3: { string t; for (char c : s) t += std::isupper((unsigned char)c) ? std::tolower(c) : std::toupper(c); return t; }
      case 4: return s + " # z";
      case 5: { string t; for (char c : s) t += std::isdigit((unsigned char)c) ? '9' : c; return t; }
      case 6: { string t; for (char c : s) if (!std::isspace((unsigned char)c)) t += c; return t; }
      case 7: return s + "//k";
      default: return s;
    }
  };
  static const vector<string> kinds{"digits", "hash", "empty", "last"};
  for (int i = 0; i < (thorough ? 60000 : 6000); ++i) {
    O o;
    int many = r.below(4);
    auto on = [&](int p) { return r.chance(many == 0 ? p / 3 : p); };
    o.all = on(20); o.multi = on(25); o.trail = on(25); o.fold = on(30); o.nonl = on(20); o.blank = on(30); o.chunks = !r.chance(30);
    if (on(30)) { o.strip = r.chance(60) ? "line" : "parsed"; o.trim = r.chance(60); o.mark = r.chance(60) ? "#" : "//"; if (r.chance(60)) o.po.stop = "#"; else o.po.stopstr = "//"; }
    if (on(35)) o.match = r.of(kinds);
    if (o.match == "last") o.match = "digits";
    if (on(25)) { o.lkind = r.of(kinds); o.lby = r.chance(50) ? "" : r.chance(50) ? "N" : "7 "; }
    if (on(25)) { if (r.chance(70)) { o.rkind = o.lkind; o.rby = o.lby; } else { o.rkind = r.of(kinds); o.rby = r.chance(50) ? "N" : ""; } }
    vector<string> l, rr;
    for (int k = r.below(r.chance(80) ? 7 : 25); k > 0; --k) l.push_back(line());
    int p = r.of(vector<int>{10, 30, 60, 100});
    for (const auto& s : l) { if (r.chance(6)) continue; rr.push_back(r.chance(p) ? variant(s) : s); if (r.chance(8)) rr.push_back(r.chance(50) ? string() : line()); if (r.chance(6)) rr.push_back(std::to_string(r.below(30))); }
    static const vector<size_t> cs{0, 1, 2, 3, kHuge};
    vector<Out> outs{{.fmt = "unified", .c = r.of(cs)}};
    if (r.chance(30)) outs.push_back({.fmt = r.of(vector<string>{"context", "normal", "side"}), .c = r.of(cs), .width = 30});
    if (r.chance(30)) outs.push_back({.fmt = "unified", .c = r.of(cs), .width = 0, .hdr = false, .skip = true});
    Diff(Join(l, r.chance(80)), Join(rr, r.chance(80)), r.chance(60) ? "myers" : r.of(kAlgs), r.chance(30), o, outs, false);
  }
}
int main(int argc, char** argv) {
  int part = atoi(argv[1]); uint64_t seed = strtoull(argv[2], nullptr, 10); thorough = argc > 3 && string(argv[3]) == "thorough";
  if (part == 1) X01(seed); else if (part == 2) X02(seed); else X03(seed);
  return 0;
}
