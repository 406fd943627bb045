// D06: every kind of line through the checksum line parser.
#include <limits>
#include <memory>

#include "mbo/digest/checksum.h"
#include "trace.h"
using mbo::digest::internal::ParseChecksumLine;
static void Line(const std::string& s, const std::vector<long>& ws) {
  // an exact heap copy: reads past its end are seen by the sanitizer
  std::unique_ptr<char[]> p(new char[s.size() ? s.size() : 1]);
  memcpy(p.get(), s.data(), s.size());
  const std::string_view v(p.get(), s.size());
  std::string got = "[";
  for (long w : ws) {
    const auto r = ParseChecksumLine(v, w < 0 ? std::numeric_limits<std::size_t>::max() + 1 + w : (std::size_t)w);
    if (got.size() > 1) got += ",";
    if (!r) { got += "{\"ok\":false}"; continue; }
    const bool within = r->hex.data() >= v.data() && r->file_name.data() + r->file_name.size() <= v.data() + v.size();
    got += "{\"ok\":true,\"within\":" + std::string(within ? "true" : "false") + ",\"hex\":" + vf::Rec::arrayed(r->hex) + ",\"name\":" + vf::Rec::arrayed(r->file_name) + "}";
  }
  std::vector<int> enc;
  for (long w : ws) enc.push_back(w < 0 ? -1 : (int)w);
  vf::Rec("line").bytes("s", s).nums("ws", enc).raw("got", got + "]").emit();
}
int main(int, char** argv) {
  static char buf[1 << 20];
  setvbuf(stdout, buf, _IOFBF, sizeof buf);
  vf::Rng rng(strtoull(argv[1], nullptr, 10));
  const bool thorough = std::string(argv[2]) == "thorough";
  const std::string abc = "0fG *a";
  std::function<void(std::string, int)> all = [&](std::string s, int n) {
    Line(s, {0, 1, 2, 3, (long)s.size(), -1});
    if (n) for (char c : abc) all(s + c, n - 1);
  };
  all("", thorough ? 7 : 6);
  for (int b = 0; b < 256; ++b)
    for (int at = 0; at < 8; ++at)
      for (const char* base : {"09af  nm", "AFaf *nm"}) { std::string s(base); s[at] = (char)b; Line(s, {4, 3, 5, -2, -5, -8}); }
  static const int widths[] = {32, 40, 56, 64, 96, 128};
  for (int i = 0; i < (thorough ? 60000 : 6000); ++i) {
    const int w = widths[rng.below(6)];
    std::string s;
    for (int k = 0; k < w; ++k) s += "0123456789abcdefABCDEF"[rng.below(22)];
    s += rng.chance(50) ? "  " : " *";
    const int n = rng.below(12);
    for (int k = 0; k < n; ++k) s += (char)(rng.chance(80) ? "ab/.*  \\"[rng.below(8)] : rng.below(256));
    const int edits = rng.below(3);
    for (int k = 0; k < edits && !s.empty(); ++k) {
      const int at = rng.below(s.size());
      switch (rng.below(4)) {
        case 0: s.erase(at, 1); break;
        case 1: s.insert(at, 1, (char)rng.below(256)); break;
        case 2: s[at] = (char)rng.below(256); break;
        case 3: s.resize(at); break;
      }
    }
    Line(s, {w, (long)s.size(), (long)s.size() - 3 < 0 ? 0 : (long)s.size() - 3, -(long)rng.below(300) - 1});
  }
}
