// S01..S05: parsing, stripping, indentation, numbers, splitting.
#include <limits>
#include <set>
#include "absl/strings/str_split.h"
#include "mbo/strings/contains.h"
#include "mbo/strings/indent.h"
#include "mbo/strings/numbers.h"
#include "mbo/strings/parse.h"
#include "mbo/strings/split.h"
#include "mbo/strings/strip.h"
#include "trace.h"
using namespace mbo::strings;
using vf::Rec;
using vf::Rng;
static bool thorough;
struct Opt { std::string stop, stopstr, split, esc = "(){}[]<>,;&"; bool dq = true, sq = true, rmq = true, unq = true;
  ParseOptions o() const { return {.stop_at_any_of = stop, .stop_at_str = stopstr, .split_at_any_of = split, .enable_double_quotes = dq, .enable_single_quotes = sq, .remove_quotes = rmq, .allow_unquoted = unq, .custom_escapes = esc}; }
  std::string json() const {
    auto b = [](bool x) { return x ? "true" : "false"; };
    return "{\"stop\":" + Rec::arrayed(stop) + ",\"stopstr\":" + Rec::arrayed(stopstr) + ",\"split\":" + Rec::arrayed(split) + ",\"esc\":" + Rec::arrayed(esc) +
           ",\"dq\":" + b(dq) + ",\"sq\":" + b(sq) + ",\"rmq\":" + b(rmq) + ",\"unq\":" + b(unq) + "}"; }
};
static int Code(const absl::Status& s) { return s.ok() ? 0 : s.code() == absl::StatusCode::kInvalidArgument ? 2 : s.code() == absl::StatusCode::kUnimplemented ? 3 : 9; }
static void Parse(const Opt& o, const std::string& in, bool list) {
  // exactly as long as the text, so that reading behind it is seen
  std::vector<char> buf(in.begin(), in.end());
  std::string_view data(buf.data(), buf.size()), all = data;
  Rec r(list ? "list" : "one");
  r.raw("o", o.json()).bytes("in", in);
  if (list) {
    auto v = ParseStringList(o.o(), data);
    r.num("code", Code(v.status())); if (v.ok()) r.bytess("outs", *v);
  } else {
    auto v = ParseString(o.o(), data);
    r.num("code", Code(v.status())); if (v.ok()) r.bytes("out", *v);
  }
  bool tail = data.data() + data.size() == all.data() + all.size() && data.size() <= all.size();
  r.boolean("tail", tail || all.empty()).bytes("rest", tail || all.empty() ? data : std::string_view("?")).emit();
}
static std::string From(Rng& r, std::string_view alpha, int max) { std::string s; int n = r.below(max + 1); for (int i = 0; i < n; ++i) s += r.chance(2) ? (char)r.next() : alpha[r.below(alpha.size())]; return s; }
static Opt RandOpt(Rng& r) {
  Opt o;
  if (r.chance(40)) o.stop = From(r, "#.;/]'\"\\an", 2);
  if (r.chance(40)) o.stopstr = From(r, "#/,.'a1", 3);
  if (r.chance(50)) o.split = From(r, ",;.|a'", 2);
  if (r.chance(40)) o.esc = From(r, "#,.an01xou/\\'\"", 4);
  o.dq = r.chance(75); o.sq = r.chance(75); o.rmq = r.chance(60); o.unq = r.chance(75);
  return o;
}
static std::string Piece(Rng& r) {
  static const std::vector<std::string> ps{"\\", "\\", "'", "\"", "'", "\"", ",", ";", ".", "#", "//", "/", "a", "1", "b ", "\\n", "\\\\", "\\'", "\\\"", "\\x", "\\x4", "\\x{4f}", "\\x{", "\\xFg", "\\12", "\\7", "\\0", "\\377",
    "\\400", "\\777", "\\o{", "\\o{17}", "\\o{777}", "\\o{8}", "\\o", "}", "{", "\\u", "\\N", "\\U", "\\e", "\\a", "\\,", "\\(", "\\?", "]", "9", " ", "\t", "|", "\xC8", "\n"};
  return r.of(ps);
}
template<typename F> void AllTexts(std::string_view alpha, int max, F f) {
  std::string s; std::function<void()> go = [&] { f(s); if ((int)s.size() < max) for (char c : alpha) { s += c; go(); s.pop_back(); } };
  go();
}
static void S01(int seed) {
  Rng r(seed);
  std::vector<Opt> os{Opt{}};
  for (int i = 0; i < (thorough ? 11 : 4); ++i) os.push_back(RandOpt(r));
  { Opt o; o.stop = "#"; o.split = ","; os.push_back(o); o.rmq = false; o.unq = false; os.push_back(o); Opt p; p.stopstr = ",#"; os.push_back(p); p.unq = false; p.rmq = false; os.push_back(p); }
  for (auto& o : os) AllTexts("\\'\",1#", thorough ? 5 : 4, [&](const std::string& s) { Parse(o, s, r.chance(50)); });
  AllTexts("\\ox{}17f8", thorough ? 6 : 5, [&](const std::string& s) { if (s.starts_with("\\") && (s.size() < 4 || r.chance(20))) Parse(Opt{}, s, false); });
  for (int c = 0; c < 256; ++c) for (auto t : {"", "1", "{1}"}) Parse(Opt{}, std::string("\\") + (char)c + t, false);
  for (int i = 0; i < (thorough ? 60000 : 12000); ++i) {
    std::string s; for (int n = r.below(r.chance(10) ? 40 : 9); n; --n) s += Piece(r);
    Parse(RandOpt(r), s, r.chance(50));
  }
}
static void S02(int seed) {
  Rng r(seed);
  auto text = [&] { std::string s; for (int n = r.below(14); n; --n) s += r.chance(30) ? Piece(r) : r.of<std::string>({"#", "##", "/", "//", " ", "\t", "\r", "\v", "\n", "a", "'", " \n", "x  #", "\f"}); return s; };
  for (int i = 0; i < (thorough ? 40000 : 10000); ++i) {
    std::string s = text(), mark = r.of<std::string>({"#", "##", "//", "/*", " ", "a", "x #", "\n", "-"}); bool trim = r.chance(50);
    std::string line = s.substr(0, s.find('\n'));
    if (r.chance(30)) Rec("line").bytes("in", s).bytes("mark", mark).boolean("trim", trim).bytes("out", StripLineComments(s, {.comment_start = mark, .strip_trailing_whitespace = trim})).emit();
    Rec("strip").bytes("in", s).bytes("mark", mark).boolean("trim", trim).bytes("out", StripComments(s, {.comment_start = mark, .strip_trailing_whitespace = trim})).emit();
    Opt o; if (r.chance(40)) o = RandOpt(r); if (r.chance(60)) o.stop = r.of<std::string>({"#", "/", "#/"}); else if (r.chance(50)) o.stopstr = r.of<std::string>({"//", "##", "#"});
    auto p = StripParsedComments(s, {.parse = o.o(), .strip_trailing_whitespace = trim});
    Rec e("pstrip"); e.raw("o", o.json()).bytes("in", s).boolean("trim", trim).boolean("ok", p.ok()); if (p.ok()) e.bytes("out", *p); e.emit();
    auto q = StripParsedLineComments(line, {.parse = o.o(), .strip_trailing_whitespace = trim});
    Rec f("pline"); f.raw("o", o.json()).bytes("in", line).boolean("trim", trim).boolean("ok", q.ok()); if (q.ok()) f.bytes("out", *q); f.emit();
  }
  auto fix = [&](const std::string& s, const std::string& x) {
    std::string a = s, b = s; bool h = ConsumePrefix(a, x);
    Rec("prefix").bytes("in", s).bytes("x", x).boolean("had", h).bytes("left", a).bytes("stripped", StripPrefix(std::move(b), x)).emit();
    std::string c = s, d = s; bool g = ConsumeSuffix(c, x);
    Rec("suffix").bytes("in", s).bytes("x", x).boolean("had", g).bytes("left", c).bytes("stripped", StripSuffix(std::move(d), x)).emit();
  };
  std::vector<std::string> xs; AllTexts("ab", 3, [&](const std::string& s) { xs.push_back(s); });
  AllTexts("ab", thorough ? 6 : 4, [&](const std::string& s) { for (auto& x : xs) fix(s, x); });
  for (int i = 0; i < 300; ++i) { std::string s = From(r, std::string_view("ab\0\xff", 4), 60); size_t p = r.below(s.size() + 1); fix(s, r.chance(50) ? s.substr(0, p) : s.substr(p)); }
}
static void S03(int seed) {
  Rng r(seed);
  auto one = [](const std::string& s) {
    auto v = DropIndentAndSplit(s);
    std::vector<std::string> lines(v.begin(), v.end());
    Rec("indent").bytes("in", s).bytess("lines", lines).bytes("out", DropIndent(s)).emit();
  };
  AllTexts(" a\n\t", thorough ? 8 : 6, one);
  for (int i = 0; i < (thorough ? 20000 : 4000); ++i) {
    std::string ind = From(r, " \t", 5), s = r.chance(70) ? "\n" : From(r, "ab \t", 5);
    for (int n = r.below(8); n; --n) { s += r.chance(70) ? ind : From(r, " \t", 6); s += From(r, "ab \t\v\r{}", 6); if (r.chance(85)) s += "\n"; }
    if (r.chance(40)) s += From(r, " \t", 4);
    one(s);
  }
}
template<typename T> void Num(T v) {
  bool neg = v < 0; uint64_t mag = neg ? 0 - (uint64_t)(int64_t)v : (uint64_t)v;
  Rec("number").boolean("neg", neg).u64("mag", mag).bytes("out", BigNumber(v)).num("len", BigNumberLen(v)).emit();
}
template<typename T> void Nums(Rng& r) {
  std::set<T> vs{std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), 0, 1, (T)-1};
  for (uint64_t p = 1, k = 0; k < 20; ++k, p *= 10) for (int d = -1; d <= 1; ++d) for (int m : {1, 9, -1, -9}) { vs.insert((T)(p * m + d)); }
  for (int b = 0; b < 64; ++b) for (int d = -1; d <= 1; ++d) { vs.insert((T)((1ULL << b) + d)); vs.insert((T)(0 - (1ULL << b) + d)); }
  for (int i = 0; i < (thorough ? 4000 : 400); ++i) vs.insert((T)(r.next() >> r.below(64)));
  if (sizeof(T) == 1) for (int i = 0; i < 256; ++i) vs.insert((T)i);
  for (auto v : vs) Num(v);
}
static void S04(int seed) {
  Rng r(seed);
  Nums<int8_t>(r); Nums<uint8_t>(r); Nums<int16_t>(r); Nums<uint16_t>(r); Nums<int32_t>(r); Nums<uint32_t>(r); Nums<int64_t>(r); Nums<uint64_t>(r); Nums<long long>(r); Nums<unsigned long long>(r); Nums<char>(r);
  Nums<wchar_t>(r); Nums<char16_t>(r); Nums<char32_t>(r); Num(true); Num(false);
}
static constexpr std::string_view kPool[] = {"", "a", "b", "ab", "ba", "aab", "abab", "aaa"};
template<size_t... I> constexpr auto CtTable(std::index_sequence<I...>) { return std::array<bool, sizeof...(I)>{Contains(kPool[I / 8], kPool[I % 8])...}; }
static void S05(int seed) {
  Rng r(seed);
  auto con = [](const std::string& s, const std::string& x, int ct = -1) {
    std::string b = std::string("[") + (Contains(s, x) ? "true" : "false");
    if (x.size() == 1) b += std::string(",") + (Contains(s, x[0]) ? "true" : "false");
    if (ct >= 0) b += std::string(",") + (ct ? "true" : "false");
    Rec("contains").bytes("in", s).bytes("x", x).raw("b", b + "]").emit();
  };
#ifndef VF_NO_CT
  constexpr auto kCt = CtTable(std::make_index_sequence<64>{});
  for (int i = 0; i < 64; ++i) con(std::string(kPool[i / 8]), std::string(kPool[i % 8]), kCt[i]);
  static_assert(Contains("abc", 'c') && !Contains("abc", 'd'));
#endif
  auto split = [](const std::string& s, char c) {
    AtLast d(c);
    for (size_t p = 0; p <= s.size(); ++p) {
      std::string_view t(s), f = d.Find(t, p);
      ptrdiff_t off = f.data() - t.data();
      int pos = f.empty() ? (off == (ptrdiff_t)t.size() ? -1 : -2) : f.size() == 1 && f[0] == c ? (int)off : -3;
      Rec("find").bytes("in", s).num("c", (unsigned char)c).num("from", p).num("pos", pos).emit();
    }
    std::vector<std::string> parts = absl::StrSplit(s, AtLast(c));
    Rec("split").bytes("in", s).num("c", (unsigned char)c).bytess("parts", parts).emit();
  };
  std::vector<std::string> xs; AllTexts("ab", 3, [&](const std::string& s) { xs.push_back(s); });
  AllTexts("ab", thorough ? 9 : 7, [&](const std::string& s) { for (auto& x : xs) con(s, x); split(s, 'a'); });
  for (int i = 0; i < (thorough ? 10000 : 2000); ++i) {
    std::string alpha("ab\0\xff./", 6), s = From(r, alpha, r.chance(10) ? 300 : 14);
    size_t p = r.below(s.size() + 1); std::string x = s.substr(p, r.below(6)); if (r.chance(40)) x += From(r, alpha, 2);
    con(s, x); if (s.size() < 40) split(s, alpha[r.below(6)]);
  }
}
int main(int argc, char** argv) {
  int what = atoi(argv[1]), seed = argc > 2 ? atoi(argv[2]) : 1; thorough = argc > 3 && std::string(argv[3]) == "thorough";
  switch (what) { case 1: S01(seed); break; case 2: S02(seed); break; case 3: S03(seed); break; case 4: S04(seed); break; case 5: S05(seed); break; }
  return 0;
}
