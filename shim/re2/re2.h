// Stand-in for RE2 (not installed here): a backtracking matcher for the documented RE2 syntax
// with leftmost-first semantics, as the repository's code uses it.
#pragma once
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <vector>

#include "absl/shim_all.h"

namespace re2 {
using StringPiece = std::string_view;
class RE2 {
 public:
  enum ErrorCode { NoError = 0, ErrorInternal, ErrorBadEscape, ErrorBadCharClass, ErrorBadCharRange, ErrorMissingBracket, ErrorMissingParen, ErrorUnexpectedParen,
    ErrorTrailingBackslash, ErrorRepeatArgument, ErrorRepeatSize, ErrorRepeatOp, ErrorBadPerlOp, ErrorBadUTF8, ErrorBadNamedCapture, ErrorPatternTooLarge };
  enum Anchor { UNANCHORED, ANCHOR_START, ANCHOR_BOTH };
  enum CannedOptions { DefaultOptions = 0, Latin1, POSIX, Quiet };
  class Options {
   public:
    enum Encoding { EncodingUTF8 = 1, EncodingLatin1 };
    Options() = default;
    Options(CannedOptions o) { if (o == Latin1) latin1_ = true; if (o == POSIX) { posix_ = longest_ = true; } if (o == Quiet) log_errors_ = false; }
#define SHIM_OPT(n, d) bool n() const { return n##_; } void set_##n(bool v) { n##_ = v; } bool n##_ = d;
    SHIM_OPT(posix_syntax, false) SHIM_OPT(longest_match, false) SHIM_OPT(log_errors, true) SHIM_OPT(literal, false) SHIM_OPT(never_nl, false) SHIM_OPT(dot_nl, false)
    SHIM_OPT(never_capture, false) SHIM_OPT(case_sensitive, true) SHIM_OPT(perl_classes, false) SHIM_OPT(word_boundary, false) SHIM_OPT(one_line, false)
#undef SHIM_OPT
    Encoding encoding() const { return latin1_ ? EncodingLatin1 : EncodingUTF8; }
    void set_encoding(Encoding e) { latin1_ = e == EncodingLatin1; }
    int64_t max_mem() const { return max_mem_; }
    void set_max_mem(int64_t m) { max_mem_ = m; }
    bool latin1_ = false, posix_ = false, longest_ = false; int64_t max_mem_ = 8 << 20;
  };
  RE2(const char* p) : RE2(std::string_view(p)) {}
  RE2(const std::string& p) : RE2(std::string_view(p)) {}
  RE2(std::string_view p) : pat_(p) { Compile(); }
  RE2(std::string_view p, const Options& o) : pat_(p), opt_(o) { Compile(); }
  RE2(std::string_view p, CannedOptions o) : pat_(p), opt_(o) { Compile(); }
  RE2(const RE2&) = delete;
  RE2& operator=(const RE2&) = delete;
  bool ok() const { return code_ == NoError; }
  const std::string& pattern() const { return pat_; }
  const std::string& error() const { return err_; }
  const std::string& error_arg() const { return arg_; }
  ErrorCode error_code() const { return code_; }
  int NumberOfCapturingGroups() const { return ok() ? ncap_ : -1; }
  const Options& options() const { return opt_; }

  class Arg {
   public:
    Arg() = default;
    Arg(std::nullptr_t) {}
    template<typename T> Arg(T* p) : parse_([p](std::string_view s, bool set) {
      if (!p) return true;
      if constexpr (std::is_same_v<T, std::string> || std::is_same_v<T, std::string_view>) { *p = T(s); return true; }
      else if constexpr (std::is_same_v<T, std::optional<std::string_view>> || std::is_same_v<T, std::optional<std::string>>) { if (set) p->emplace(s); else p->reset(); return true; }
      else if constexpr (std::is_same_v<T, char>) { if (s.size() != 1) return false; *p = s[0]; return true; }
      else if constexpr (requires { typename T::value_type; p->reset(); }) { if (!set) { p->reset(); return true; } typename T::value_type v; if (s.empty() || absl::ascii_isspace(s[0]) || !absl::SimpleAtoi(s, &v)) return false; *p = v; return true; }
      else if constexpr (std::is_integral_v<T>) { T v; if (s.empty() || absl::ascii_isspace(s[0]) || absl::ascii_isspace(s.back()) || s[0] == '+' || !absl::SimpleAtoi(s, &v)) return false; *p = v; return true; }
      else { double v; if (!absl::SimpleAtod(s, &v)) return false; *p = (T)v; return true; }
    }) {}
    bool Parse(std::string_view s, bool set) const { return !parse_ || parse_(s, set); }
   private:
    std::function<bool(std::string_view, bool)> parse_;
  };

  bool Match(std::string_view text, size_t start, size_t end, Anchor anchor, std::string_view* sub, int nsub) const {
    if (!ok()) return false;
    std::vector<const char*> caps;
    const char* b = text.data() + start; const char* e = text.data() + end;
    for (const char* p = b; p <= e; ++p) {
      const char* fin = Run(text.data(), e, p, anchor == ANCHOR_BOTH, caps);
      if (fin) {
        for (int i = 0; i < nsub; ++i) {
          if (i <= ncap_ && caps[2 * i] && caps[2 * i + 1]) sub[i] = std::string_view(caps[2 * i], caps[2 * i + 1] - caps[2 * i]);
          else sub[i] = std::string_view();
        }
        return true;
      }
      if (anchor != UNANCHORED) break;
      if (p == e) break;
    }
    return false;
  }
  template<typename... A> static bool FullMatchN(std::string_view t, const RE2& re, const A&... a) { return Apply(t, re, ANCHOR_BOTH, nullptr, a...); }
  template<typename... A> static bool FullMatch(std::string_view t, const RE2& re, A&&... a) { return Apply(t, re, ANCHOR_BOTH, nullptr, Arg(a)...); }
  template<typename... A> static bool PartialMatch(std::string_view t, const RE2& re, A&&... a) { return Apply(t, re, UNANCHORED, nullptr, Arg(a)...); }
  template<typename... A> static bool Consume(std::string_view* t, const RE2& re, A&&... a) {
    size_t used; if (!Apply(*t, re, ANCHOR_START, &used, Arg(a)...)) return false; t->remove_prefix(used); return true;
  }
  template<typename... A> static bool FindAndConsume(std::string_view* t, const RE2& re, A&&... a) {
    size_t used; if (!Apply(*t, re, UNANCHORED, &used, Arg(a)...)) return false; t->remove_prefix(used); return true;
  }
  bool Rewrite(std::string* out, std::string_view rw, const std::string_view* v, int n) const {
    for (size_t i = 0; i < rw.size(); ++i) {
      if (rw[i] != '\\') { *out += rw[i]; continue; }
      ++i;
      if (i < rw.size() && absl::ascii_isdigit(rw[i])) { const int k = rw[i] - '0'; if (k >= n) return false; *out += v[k]; }
      else if (i < rw.size() && rw[i] == '\\') *out += '\\';
      else return false;
    }
    return true;
  }
  bool CheckRewriteString(std::string_view rw, std::string* err) const {
    int mx = -1;
    for (size_t i = 0; i < rw.size(); ++i) { if (rw[i] != '\\') continue; if (++i >= rw.size()) return false; if (rw[i] == '\\') continue; if (!absl::ascii_isdigit(rw[i])) return false; mx = std::max(mx, rw[i] - '0'); }
    if (mx > ncap_) { *err = "too many groups"; return false; }
    return true;
  }
  static int MaxSubmatch(std::string_view rw) { int mx = 0; for (size_t i = 0; i + 1 < rw.size(); ++i) if (rw[i] == '\\') { ++i; if (absl::ascii_isdigit(rw[i])) mx = std::max(mx, rw[i] - '0'); } return mx; }
  static bool Replace(std::string* s, const RE2& re, std::string_view rw) {
    std::string_view v[10]; const int n = 1 + MaxSubmatch(rw);
    if (!re.ok() || n > 1 + re.ncap_ || !re.Match(*s, 0, s->size(), UNANCHORED, v, n)) return false;
    std::string r; if (!re.Rewrite(&r, rw, v, n)) return false;
    s->replace(v[0].data() - s->data(), v[0].size(), r);
    return true;
  }
  static int GlobalReplace(std::string* s, const RE2& re, std::string_view rw) {
    std::string_view v[10]; const int n = 1 + MaxSubmatch(rw);
    if (!re.ok() || n > 1 + re.ncap_) return 0;
    const std::string src = *s; std::string out; size_t pos = 0; int count = 0; const char* last = nullptr;
    while (pos <= src.size()) {
      if (!re.Match(src, pos, src.size(), UNANCHORED, v, n)) break;
      const size_t at = v[0].data() - src.data();
      out.append(src, pos, at - pos);
      if (v[0].data() == last && v[0].empty()) { if (at < src.size()) out += src[at]; pos = at + 1; continue; }
      if (!re.Rewrite(&out, rw, v, n)) return 0;
      ++count; pos = at + v[0].size(); last = src.data() + pos;
    }
    if (count == 0) return 0;
    if (pos < src.size()) out.append(src, pos, src.npos);
    *s = out;
    return count;
  }
  static bool Extract(std::string_view t, const RE2& re, std::string_view rw, std::string* out) {
    std::string_view v[10]; const int n = 1 + MaxSubmatch(rw);
    if (n > 1 + re.ncap_ || !re.Match(t, 0, t.size(), UNANCHORED, v, n)) return false;
    out->clear(); return re.Rewrite(out, rw, v, n);
  }
  static std::string QuoteMeta(std::string_view s) {
    std::string r;
    for (unsigned char c : s) { if (c == 0) { r += "\\x00"; continue; } if (!absl::ascii_isalnum(c) && c != '_' && c < 128) r += '\\'; r += (char)c; }
    return r;
  }

 private:
  using Set = std::array<uint64_t, 4>;
  struct Node {
    enum Kind { kEmpty, kSet, kCat, kAlt, kRepeat, kCap, kBol, kEol, kBot, kEot, kWord, kNotWord } kind = kEmpty;
    Set set{}; std::vector<std::unique_ptr<Node>> sub; int lo = 0, hi = -1; bool greedy = true; int cap = 0;
  };
  using P = std::unique_ptr<Node>;
  struct Flags { bool i = false, s = false, m = false, u = false; };
  static P Make(Node::Kind k) { P p = std::make_unique<Node>(); p->kind = k; return p; }
  static void Add(Set& s, unsigned c) { s[c >> 6] |= 1ULL << (c & 63); }
  static bool In(const Set& s, unsigned char c) { return (s[c >> 6] >> (c & 63)) & 1; }
  static void AddRange(Set& s, unsigned a, unsigned b) { for (unsigned c = a; c <= b; ++c) Add(s, c); }
  static void Fold(Set& s) { for (unsigned c = 'a'; c <= 'z'; ++c) if (In(s, c) || In(s, c - 32)) { Add(s, c); Add(s, c - 32); } }
  static void Negate(Set& s) { for (auto& w : s) w = ~w; }
  void Fail(ErrorCode c, std::string_view arg) {
    if (code_ != NoError) return;
    static const char* n[] = {"no error", "unexpected error", "invalid escape sequence", "invalid character class", "invalid character class range", "missing ]", "missing )", "unexpected )",
      "trailing \\", "no argument for repetition operator", "invalid repetition size", "bad repetition operator", "invalid perl operator", "invalid UTF-8", "invalid named capture group", "pattern too large"};
    code_ = c; arg_ = std::string(arg); err_ = std::string(n[c]) + (arg.empty() ? "" : ": " + arg_);
  }
  void Compile() {
    Flags f; f.i = !opt_.case_sensitive(); f.s = opt_.dot_nl(); f.m = false;
    if (opt_.literal()) { P cat = Make(Node::kCat); for (unsigned char c : pat_) cat->sub.push_back(Lit(c, f)); root_ = std::move(cat); return; }
    pos_ = 0;
    root_ = Alt(f, 0);
    if (ok() && pos_ < pat_.size()) Fail(ErrorUnexpectedParen, pat_);
    if (!ok() && opt_.log_errors()) std::cerr << "Error parsing '" << pat_ << "': " << err_ << "\n";
  }
  bool More() const { return pos_ < pat_.size() && code_ == NoError; }
  P Lit(unsigned char c, const Flags& f) { P p = Make(Node::kSet); Add(p->set, c); if (f.i) Fold(p->set); return p; }
  P Alt(Flags& f, int depth) {
    P alt = Make(Node::kAlt);
    alt->sub.push_back(Cat(f, depth));
    while (More() && pat_[pos_] == '|') { ++pos_; alt->sub.push_back(Cat(f, depth)); }
    if (alt->sub.size() == 1) return std::move(alt->sub[0]);
    return alt;
  }
  P Cat(Flags& f, int depth) {
    P cat = Make(Node::kCat);
    bool can = false;       // an operand precedes
    bool last_rep = false;  // the operand already is a repetition
    while (More()) {
      const char c = pat_[pos_];
      if (c == '|' || c == ')') break;
      if (c == '*' || c == '+' || c == '?' || c == '{') {
        int lo = c == '+' ? 1 : 0, hi = c == '?' ? 1 : -1;
        size_t q = pos_ + 1;
        if (c == '{') {
          auto num = [&](int& v) { if (q >= pat_.size() || !absl::ascii_isdigit(pat_[q])) return false; v = 0; while (q < pat_.size() && absl::ascii_isdigit(pat_[q])) v = std::min(v * 10 + pat_[q++] - '0', 100000); return true; };
          bool good = num(lo);
          if (good) { if (q < pat_.size() && pat_[q] == ',') { ++q; if (!num(hi)) hi = -1; } else hi = lo; good = q < pat_.size() && pat_[q] == '}'; }
          if (!good) { cat->sub.push_back(Lit('{', f)); ++pos_; can = true; last_rep = false; continue; }
          ++q;
          if (lo > 1000 || hi > 1000 || (hi >= 0 && lo > hi)) { Fail(ErrorRepeatSize, std::string_view(pat_).substr(pos_, q - pos_)); return cat; }
        }
        if (!can) { Fail(ErrorRepeatArgument, std::string_view(pat_).substr(pos_, q - pos_)); return cat; }
        bool greedy = true;
        if (q < pat_.size() && pat_[q] == '?') { greedy = false; ++q; }
        if (last_rep) { Fail(ErrorRepeatOp, std::string_view(pat_).substr(pos_ - 1, q - pos_ + 1)); return cat; }
        P rep = Make(Node::kRepeat); rep->lo = lo; rep->hi = hi; rep->greedy = greedy != f.u; rep->sub.push_back(std::move(cat->sub.back()));
        cat->sub.back() = std::move(rep); pos_ = q; last_rep = true;
        continue;
      }
      P a = Atom(f, depth);
      if (a) { cat->sub.push_back(std::move(a)); can = true; } else can = can && false;
      last_rep = false;
    }
    return cat;
  }
  static bool Posix(std::string_view n, Set& s) {
    Set t{};
    auto pred = [&](auto p) { for (unsigned c = 0; c < 128; ++c) if (p((unsigned char)c)) Add(t, c); };
    if (n == "alpha") pred(absl::ascii_isalpha); else if (n == "digit") pred(absl::ascii_isdigit); else if (n == "alnum") pred(absl::ascii_isalnum);
    else if (n == "upper") pred(absl::ascii_isupper); else if (n == "lower") pred(absl::ascii_islower); else if (n == "space") pred(absl::ascii_isspace);
    else if (n == "punct") pred(absl::ascii_ispunct); else if (n == "blank") pred(absl::ascii_isblank); else if (n == "cntrl") pred(absl::ascii_iscntrl);
    else if (n == "graph") pred(absl::ascii_isgraph); else if (n == "print") pred(absl::ascii_isprint); else if (n == "xdigit") pred(absl::ascii_isxdigit);
    else if (n == "word") pred([](unsigned char c) { return absl::ascii_isalnum(c) || c == '_'; }); else if (n == "ascii") AddRange(t, 0, 127);
    else return false;
    for (int i = 0; i < 4; ++i) s[i] |= t[i];
    return true;
  }
  static bool Perl(char c, Set& s) {
    Set t{}; const char l = (char)(c | 32);
    if (l == 'd') AddRange(t, '0', '9');
    else if (l == 'w') { AddRange(t, '0', '9'); AddRange(t, 'a', 'z'); AddRange(t, 'A', 'Z'); Add(t, '_'); }
    else if (l == 's') { for (char x : {'\t', '\n', '\f', '\r', ' '}) Add(t, (unsigned char)x); }
    else return false;
    if (c != l) Negate(t);
    for (int i = 0; i < 4; ++i) s[i] |= t[i];
    return true;
  }
  // after a backslash (pos_ at the character following it): a single byte
  int Escape() {
    const size_t b = pos_ - 1;
    const char c = pat_[pos_++];
    if (c >= '1' && c <= '7') {
      if (pos_ < pat_.size() && pat_[pos_] >= '0' && pat_[pos_] <= '7') { int v = c - '0'; int n = 1; while (n < 3 && pos_ < pat_.size() && pat_[pos_] >= '0' && pat_[pos_] <= '7') { v = v * 8 + pat_[pos_++] - '0'; ++n; } return v & 255; }
      Fail(ErrorBadEscape, std::string_view(pat_).substr(b, pos_ - b)); return 0;
    }
    switch (c) {
      case '0': { int v = 0, n = 0; while (n < 2 && pos_ < pat_.size() && pat_[pos_] >= '0' && pat_[pos_] <= '7') { v = v * 8 + pat_[pos_++] - '0'; ++n; } return v; }
      case 'x': {
        auto hx = [](char h) { return absl::ascii_isdigit(h) ? h - '0' : (h | 32) - 'a' + 10; };
        if (pos_ < pat_.size() && pat_[pos_] == '{') { size_t e = pat_.find('}', pos_); if (e == pat_.npos || e == pos_ + 1) break; int v = 0; for (size_t i = pos_ + 1; i < e; ++i) { if (!absl::ascii_isxdigit(pat_[i])) { Fail(ErrorBadEscape, std::string_view(pat_).substr(b, e - b)); return 0; } v = v * 16 + hx(pat_[i]); } pos_ = e + 1; return v & 255; }
        if (pos_ + 1 < pat_.size() && absl::ascii_isxdigit(pat_[pos_]) && absl::ascii_isxdigit(pat_[pos_ + 1])) { const int v = hx(pat_[pos_]) * 16 + hx(pat_[pos_ + 1]); pos_ += 2; return v; }
        break;
      }
      case 'n': return '\n'; case 't': return '\t'; case 'r': return '\r'; case 'f': return '\f'; case 'v': return '\v'; case 'a': return 7;
      default: if ((unsigned char)c < 128 && !absl::ascii_isalnum(c)) return (unsigned char)c;  // punctuation
    }
    Fail(ErrorBadEscape, std::string_view(pat_).substr(b, pos_ - b));
    return 0;
  }
  P Atom(Flags& f, int depth) {
    const char c = pat_[pos_];
    switch (c) {
      case '(': return Group(f, depth);
      case '[': return Class(f);
      case '.': { ++pos_; P p = Make(Node::kSet); AddRange(p->set, 0, 255); if (!f.s) p->set['\n' >> 6] &= ~(1ULL << '\n'); return p; }
      case '^': ++pos_; return Make(f.m ? Node::kBol : Node::kBot);
      case '$': ++pos_; return Make(f.m ? Node::kEol : Node::kEot);
      case '\\': {
        if (pos_ + 1 >= pat_.size()) { Fail(ErrorTrailingBackslash, ""); return nullptr; }
        const char d = pat_[pos_ + 1];
        if (d == 'A') { pos_ += 2; return Make(Node::kBot); }
        if (d == 'z') { pos_ += 2; return Make(Node::kEot); }
        if (d == 'b') { pos_ += 2; return Make(Node::kWord); }
        if (d == 'B') { pos_ += 2; return Make(Node::kNotWord); }
        if (d == 'C') { pos_ += 2; P p = Make(Node::kSet); AddRange(p->set, 0, 255); return p; }
        if (d == 'Q') {
          pos_ += 2; size_t e = pat_.find("\\E", pos_); const size_t n = e == pat_.npos ? pat_.size() : e; P cat = Make(Node::kCat);
          for (; pos_ < n; ++pos_) cat->sub.push_back(Lit(pat_[pos_], f));
          if (e != pat_.npos) pos_ = e + 2;
          return cat;
        }
        P p = Make(Node::kSet);
        if (Perl(d, p->set)) { pos_ += 2; return p; }
        ++pos_;
        const int v = Escape();
        return Lit((unsigned char)v, f);
      }
      default: ++pos_; return Lit((unsigned char)c, f);
    }
  }
  P Group(Flags& f, int depth) {
    const size_t b = pos_;
    ++pos_;
    int cap = 0;
    Flags g = f;
    if (pos_ < pat_.size() && pat_[pos_] == '?') {
      ++pos_;
      if (pos_ < pat_.size() && (pat_[pos_] == 'P' || pat_[pos_] == '<')) {
        if (pat_[pos_] == 'P') ++pos_;
        const size_t e = pat_.find('>', pos_);
        if (pos_ >= pat_.size() || pat_[pos_] != '<' || e == pat_.npos) { Fail(ErrorBadNamedCapture, std::string_view(pat_).substr(b)); return nullptr; }
        pos_ = e + 1; cap = ++ncap_;
      } else {
        bool neg = false, done = false;
        for (; pos_ < pat_.size() && !done; ++pos_) {
          switch (pat_[pos_]) {
            case '-': neg = true; break;
            case 'i': g.i = !neg; break;
            case 's': g.s = !neg; break;
            case 'm': g.m = !neg; break;
            case 'U': g.u = !neg; break;
            case ':': done = true; break;
            case ')': f = g; ++pos_; return nullptr;
            default: Fail(ErrorMissingParen, std::string_view(pat_).substr(b, pos_ + 1 - b)); code_ = code_ == ErrorMissingParen ? ErrorBadPerlOp : code_; return nullptr;
          }
        }
        if (!done) { Fail(ErrorMissingParen, pat_); return nullptr; }
      }
    } else {
      cap = ++ncap_;
    }
    P in = Alt(g, depth + 1);
    if (!More() || pat_[pos_] != ')') { Fail(ErrorMissingParen, pat_); return nullptr; }
    ++pos_;
    P p = Make(cap ? Node::kCap : Node::kCat);
    p->cap = cap; p->sub.push_back(std::move(in));
    return p;
  }
  P Class(const Flags& f) {
    const size_t b = pos_++;
    P p = Make(Node::kSet);
    bool neg = false;
    if (pos_ < pat_.size() && pat_[pos_] == '^') { neg = true; ++pos_; }
    bool first = true;
    for (;;) {
      if (pos_ >= pat_.size()) { Fail(ErrorMissingBracket, std::string_view(pat_).substr(b)); return nullptr; }
      if (pat_[pos_] == ']' && !first) { ++pos_; break; }
      if (pat_[pos_] == '-' && !first && pos_ + 1 < pat_.size() && pat_[pos_ + 1] != ']') { Fail(ErrorBadCharRange, std::string_view(pat_).substr(pos_, 2)); return nullptr; }
      first = false;
      if (pat_.compare(pos_, 2, "[:") == 0) {
        const size_t e = pat_.find(":]", pos_ + 2);
        if (e != pat_.npos) {
          std::string_view n = std::string_view(pat_).substr(pos_ + 2, e - pos_ - 2);
          Set t{}; const bool inv = n.starts_with('^'); if (inv) n.remove_prefix(1);
          if (!Posix(n, t)) { Fail(ErrorBadCharRange, std::string_view(pat_).substr(pos_, e + 2 - pos_)); return nullptr; }
          if (inv) Negate(t);
          for (int i = 0; i < 4; ++i) p->set[i] |= t[i];
          pos_ = e + 2; continue;
        }
      }
      if (pat_[pos_] == '\\' && pos_ + 1 < pat_.size() && Perl(pat_[pos_ + 1], p->set)) { pos_ += 2; continue; }
      auto one = [&]() -> int {
        if (pat_[pos_] == '\\') { if (pos_ + 1 >= pat_.size()) { Fail(ErrorTrailingBackslash, ""); return 0; } ++pos_; return Escape(); }
        return (unsigned char)pat_[pos_++];
      };
      const size_t at = pos_;
      const int lo = one(); if (!ok()) return nullptr;
      int hi = lo;
      if (pos_ + 1 < pat_.size() && pat_[pos_] == '-' && pat_[pos_ + 1] != ']') { ++pos_; hi = one(); if (!ok()) return nullptr; if (hi < lo) { Fail(ErrorBadCharRange, std::string_view(pat_).substr(at, pos_ - at)); return nullptr; } }
      AddRange(p->set, lo, hi);
    }
    if (f.i) Fold(p->set);
    if (neg) Negate(p->set);
    return p;
  }
  // ----- matching: continuation passing
  struct Ctx { const char* b; const char* e; std::vector<const char*>* caps; };
  using K = std::function<bool(const char*)>;
  static bool WordAt(const Ctx& x, const char* p) {
    auto w = [](char c) { return absl::ascii_isalnum(c) || c == '_'; };
    return (p > x.b && w(p[-1])) != (p < x.e && w(*p));
  }
  bool M(const Node& n, const Ctx& x, const char* p, const K& k) const {
    switch (n.kind) {
      case Node::kEmpty: return k(p);
      case Node::kSet: return p < x.e && In(n.set, (unsigned char)*p) && k(p + 1);
      case Node::kBot: return p == x.b && k(p);
      case Node::kEot: return p == x.e && k(p);
      case Node::kBol: return (p == x.b || p[-1] == '\n') && k(p);
      case Node::kEol: return (p == x.e || *p == '\n') && k(p);
      case Node::kWord: return WordAt(x, p) && k(p);
      case Node::kNotWord: return !WordAt(x, p) && k(p);
      case Node::kCat: return CatM(n, 0, x, p, k);
      case Node::kAlt: for (const auto& s : n.sub) if (M(*s, x, p, k)) return true; return false;
      case Node::kCap: {
        const auto o0 = (*x.caps)[2 * n.cap], o1 = (*x.caps)[2 * n.cap + 1];
        if (M(*n.sub[0], x, p, [&](const char* q) { const auto p0 = (*x.caps)[2 * n.cap], p1 = (*x.caps)[2 * n.cap + 1]; (*x.caps)[2 * n.cap] = p; (*x.caps)[2 * n.cap + 1] = q; if (k(q)) return true; (*x.caps)[2 * n.cap] = p0; (*x.caps)[2 * n.cap + 1] = p1; return false; })) return true;
        (*x.caps)[2 * n.cap] = o0; (*x.caps)[2 * n.cap + 1] = o1;
        return false;
      }
      case Node::kRepeat: return RepM(n, 0, x, p, k);
    }
    return false;
  }
  bool CatM(const Node& n, size_t i, const Ctx& x, const char* p, const K& k) const {
    if (i == n.sub.size()) return k(p);
    if (n.sub[i]->kind == Node::kSet) {  // common case without another frame
      while (i < n.sub.size() && n.sub[i]->kind == Node::kSet) { if (p >= x.e || !In(n.sub[i]->set, (unsigned char)*p)) return false; ++p; ++i; }
      return CatM(n, i, x, p, k);
    }
    return M(*n.sub[i], x, p, [&, i](const char* q) { return CatM(n, i + 1, x, q, k); });
  }
  bool RepM(const Node& n, int done, const Ctx& x, const char* p, const K& k) const {
    const Node& s = *n.sub[0];
    if (s.kind == Node::kSet) {  // iterate instead of recursing per character
      int c = 0; const char* q = p;
      if (n.greedy) {
        while ((n.hi < 0 || c < n.hi) && q < x.e && In(s.set, (unsigned char)*q)) { ++q; ++c; }
        for (; c >= n.lo; --c, --q) if (k(q)) return true;
        return false;
      }
      for (;; ++c, ++q) {
        if (c >= n.lo && k(q)) return true;
        if ((n.hi >= 0 && c >= n.hi) || q >= x.e || !In(s.set, (unsigned char)*q)) return false;
      }
    }
    if (done < n.lo) return M(s, x, p, [&](const char* q) { return RepM(n, done + 1, x, q, k); });
    auto more = [&] { return (n.hi < 0 || done < n.hi) && M(s, x, p, [&](const char* q) { return q != p && RepM(n, done + 1, x, q, k); }); };
    if (n.greedy) return more() || k(p);
    return k(p) || more();
  }
  const char* Run(const char* b, const char* e, const char* p, bool full, std::vector<const char*>& caps) const {
    caps.assign(2 * (ncap_ + 1), nullptr);
    Ctx x{b, e, &caps};
    const char* best = nullptr;
    std::vector<const char*> best_caps;
    const bool longest = opt_.longest_match() || opt_.longest_;
    M(*root_, x, p, [&](const char* q) {
      if (full && q != e) return false;
      if (longest) { if (!best || q > best) { best = q; best_caps = caps; } return q == e; }
      best = q; best_caps = caps; return true;
    });
    if (best) { caps = best_caps; caps[0] = p; caps[1] = best; }
    return best;
  }
  template<typename... A> static bool Apply(std::string_view t, const RE2& re, Anchor an, size_t* used, const A&... a) {
    constexpr int n = sizeof...(A);
    if (!re.ok() || re.ncap_ < n) return false;
    std::vector<std::string_view> v(n + 1);
    if (!re.Match(t, 0, t.size(), an, v.data(), n + 1)) return false;
    if (used) *used = v[0].data() + v[0].size() - t.data();
    const Arg* args[] = {&a..., nullptr};
    for (int i = 0; i < n; ++i) if (!args[i]->Parse(v[i + 1], v[i + 1].data() != nullptr)) return false;
    return true;
  }
  std::string pat_; Options opt_; ErrorCode code_ = NoError; std::string err_, arg_; int ncap_ = 0; size_t pos_ = 0; P root_;
};
class LazyRE2 {
 public:
  const RE2& operator*() const { return *get(); }
  const RE2* operator->() const { return get(); }
  const RE2* get() const { static std::map<const void*, std::unique_ptr<RE2>> all; auto& r = all[pattern_]; if (!r) r = std::make_unique<RE2>(pattern_); return r.get(); }
  const char* pattern_; int options_ = 0; mutable void* ptr_ = nullptr; mutable int once_ = 0;
};
}  // namespace re2
using re2::LazyRE2;
using re2::RE2;
