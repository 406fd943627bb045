// F02: translation, matching and splitting of glob patterns.
#include "mbo/file/glob.h"
#include "re2/re2.h"
#include "trace.h"
using namespace mbo::file;

static std::vector<std::string> texts;
static void Group() { vf::Rec("reset").bytess("texts", texts).emit(); }
static Glob2Re2Options Opt(bool ss, bool ranges) {
  Glob2Re2Options o;
  o.allow_star_star = ss;
  o.allow_ranges = ranges;
  o.re2_options.set_log_errors(false);
  return o;
}
static void Split(const std::string& p, bool ss, bool ranges) {
  const auto s = GlobSplit(p, Opt(ss, ranges));
  vf::Rec("split").bytes("p", p).boolean("ss", ss).boolean("ranges", ranges).boolean("ok", s.ok() && file_internal::Glob2Re2(p, Opt(ss, ranges)).ok())
      .bytes("root", s.ok() ? s->root : "").bytes("rest", s.ok() ? s->pattern : "").emit();
  const auto q = file_internal::GlobSplitParts(p, Opt(ss, ranges));
  vf::Rec("parts").bytes("p", p).boolean("ss", ss).boolean("ranges", ranges).boolean("ok", q.ok() && file_internal::Glob2Re2(p, Opt(ss, ranges)).ok())
      .bytes("path", q.ok() ? q->path_pattern : "").bytes("file", q.ok() ? q->file_pattern : "").boolean("mixed", q.ok() && q->mixed).emit();
}
static void Match(const std::string& p, bool ss, bool ranges) {
  const auto re = file_internal::Glob2Re2(p, Opt(ss, ranges));
  const auto ex = file_internal::Glob2Re2Expression(p, Opt(ss, ranges));
  std::vector<int> m, xm;
  if (re.ok()) {
    std::unique_ptr<RE2> x = ex.ok() ? std::make_unique<RE2>(*ex, RE2::Quiet) : nullptr;
    for (size_t i = 0; i < texts.size(); ++i) {
      if (RE2::FullMatch(texts[i], **re)) m.push_back(i + 1);
      if (x && RE2::FullMatch(texts[i], *x)) xm.push_back(i + 1);
    }
  }
  vf::Rec("match").bytes("p", p).boolean("ss", ss).boolean("ranges", ranges).boolean("ok", re.ok() && ex.ok()).nums("m", m).nums("xm", xm).emit();
}
int main(int, char** argv) {
  static char buf[1 << 20];
  setvbuf(stdout, buf, _IOFBF, sizeof buf);
  vf::Rng rng(strtoull(argv[2], nullptr, 10));
  const bool thorough = std::string(argv[3]) == "thorough";
  auto all = [](std::string_view al, int max) {
    std::vector<std::string> r{""};
    size_t from = 0;
    for (int len = 0; len < max; ++len) {
      const size_t to = r.size();
      for (size_t i = from; i < to; ++i) for (char c : al) r.push_back(r[i] + c);
      from = to;
    }
    return r;
  };
  // all short patterns over all short texts
  texts = all("ab/", 4);
  size_t n = 0;
  for (const auto& p : all("ab/*?", thorough ? 6 : 5)) {
    if (n++ % 100 == 0) Group();
    Match(p, true, true);
    if (p.find("**") != p.npos) Match(p, false, true);
    Split(p, true, true);
  }
  texts = all("a/\\]", 2);
  for (const char* t : {"!", "-", "^", "[", "*", "?", ".", "b", "d", "a-", "[a", "[]", "aa]", "a/a", "[!]", "[a]", "[-]", "!]", "-]", "a]]", "[/]", ":", "[:]", "0", "+", "$", "ab", "^a$"}) texts.push_back(t);
  n = 0;
  for (const auto& p : all(thorough ? "a/*[]!-\\^d:" : "a/[]!-\\d", thorough ? 5 : 4)) {
    if (n++ % 100 == 0) Group();
    Match(p, true, true);
    if (n % 3 == 0) Match(p, true, false);
    if (n % 2 == 0) Split(p, n % 7 > 0, n % 5 > 0);
  }
  // random patterns from parts, with texts made from the pattern
  static const std::vector<std::string> part{"a", "b", "file", "/", "/", "//", "*", "*", "**", "***", "?", "**/", "/**", "/**/", ".", "..", "+", "(", ")", "|", "{", "}", "^", "$", "#", " ", "~", "=", "&", "%", "@", ",", "'", "\"", "<", ";", "\n", "]", "-", "!", ":", "://", "_",
      "\\*", "\\?", "\\[", "\\]", "\\\\", "\\/", "\\d", "\\w", "\\n", "\\a", "\\_", "\\.", "\\:", "\\-", "\\0", "\\b", "\\Q", "\\ ",
      "[ab]", "[!ab]", "[a-c]", "[!a-c]", "[]]", "[!]]", "[]a]", "[]-a]", "[-a]", "[a-]", "[--0]", "[^a]", "[!^]", "[a^]", "[/]", "[a/]", "[!/]", "[.-0]", "[[/]", "[[]", "[\\]]", "[\\d]", "[\\w-z]", "[a\\-c]", "[\\^]", "[\\\\]", "[*?]", "[**]", "[//]", "[\\/a]",
      "[[:alpha:]]", "[[:digit:]]", "[![:digit:]]", "[[:alpha:][:digit:]]", "[[:alpha:]_]", "[[:digit:].*]", "[[:punct:]]", "[[:space:]x]", "[x[:upper:]]", "[[:xdigit:]-]", "[[:word:]]", "[[:alpha:]!]", "[a[:digit:]?]",
      "[[:foo:]]", "[[::]]", "[[:a", "[", "[!", "[a-", "[b-a]", "[a", "\\"};
  static const std::vector<std::string> bits{"a", "b", "c", "file", "/", "/", "x", "Z", "0", "9", "_", "-", "]", "[", "!", "^", "*", "?", ".", "\\", "d", "w", "n", ":", " ", "\n", "+", "$"};
  texts = {"a"};
  for (int i = 0; i < (thorough ? 90000 : 14000); ++i) {
    if (i % 200 == 0) Group();
    std::string p, near;
    std::vector<std::string> own;
    std::vector<std::string> chosen;
    for (int k = 1 + rng.below(6); k > 0; --k) chosen.push_back(rng.chance(2) ? part[part.size() - 1 - rng.below(9)] : part[rng.below(part.size() - 9)]);
    for (auto& c : chosen) p += c;
    for (int k = 0; k < 12; ++k) {
      std::string t;
      for (auto& c : chosen) {
        if (rng.chance(4)) t += rng.of(bits);
        if (rng.chance(4)) continue;
        if (c.find('*') != c.npos && c[0] != '\\' && c[0] != '[') {
          if (c[0] == '/' && rng.chance(70)) t += '/';
          for (int q = rng.below(4); q > 0; --q) t += rng.of(bits);
          if (c.back() == '/' && (rng.chance(70))) t += '/';
        } else if (c == "?") t += rng.of(bits);
        else if (c[0] == '[') { const std::string in = rng.chance(60) ? c.substr(1) : rng.of(bits); t += in.empty() ? 'a' : in[rng.below(in.size())]; }
        else if (c[0] == '\\') t += rng.chance(85) ? c.substr(1) : rng.chance(50) ? c : rng.of(bits);
        else t += c;
      }
      own.push_back(t);
    }
    const bool ss = !rng.chance(15), ranges = !rng.chance(15);
    const auto re = file_internal::Glob2Re2(p, Opt(ss, ranges));
    std::vector<int> m;
    if (re.ok()) for (auto& t : own) m.push_back(RE2::FullMatch(t, **re));
    vf::Rec("own").bytes("p", p).boolean("ss", ss).boolean("ranges", ranges).boolean("ok", re.ok()).bytess("own", own).nums("m", m).emit();
    Split(p, ss, ranges);
  }
}
