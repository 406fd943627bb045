// F03: walks of real directory trees (all below the scratch directory the driver runs in).
#include <unistd.h>

#include <filesystem>
#include <fstream>
#include <set>

#include "mbo/file/glob.h"
#include "re2/re2.h"
#include "trace.h"
using namespace mbo::file;
namespace fs = std::filesystem;

struct Node {
  std::string path;  // relative to the top of the tree
  int up;
  char kind;  // d f l(file) L(dir) x(dangling)
  size_t size;
  std::string target;
};
static std::vector<Node> nodes;
static std::string cwd;

static void Build(vf::Rng& rng) {
  fs::remove_all("tree");
  fs::create_directory("tree");
  nodes.clear();
  static const std::vector<std::string> names{"a", "b", "a.cc", "b.h", "file1", "file2", "dir", ".hid", "x y", "a[1]", "s*r", "q?", "n\nl", "b\\s", "sub"};
  const int n = rng.below(14);
  std::set<std::string> used;
  for (int i = 0; i < n; ++i) {
    std::vector<int> dirs{-1};
    for (size_t k = 0; k < nodes.size(); ++k) if (nodes[k].kind == 'd') dirs.push_back(k);
    const int up = rng.of(dirs);
    const std::string p = (up < 0 ? "" : nodes[up].path + "/") + rng.of(names);
    if (!used.insert(p).second) continue;
    const int k = rng.below(100);
    Node nd{p, up, 'f', 0, ""};
    const fs::path full = fs::path("tree") / p;
    if (k < 45) { nd.kind = 'd'; fs::create_directory(full); }
    else if (k < 88) { nd.size = rng.below(3) * 7; std::ofstream(full) << std::string(nd.size, 'x'); }
    else {
      std::vector<int> to;
      for (size_t j = 0; j < nodes.size(); ++j) if (nodes[j].kind == 'f') to.push_back(j);
      if (k < 93 && !to.empty()) { const Node& t = nodes[rng.of(to)]; nd.kind = 'l'; nd.size = t.size; fs::create_symlink(cwd + "/tree/" + t.path, full); }
      else if (k < 97) { nd.kind = 'L'; fs::create_directories("other/in/deep"); std::ofstream("other/f") << "123"; fs::create_symlink(cwd + "/other", full); }
      else { nd.kind = 'x'; fs::create_symlink("nowhere", full); }
    }
    nodes.push_back(nd);
  }
}
static std::string EscapeGlob(const std::string& s) {
  std::string r;
  for (char c : s) { if (strchr("*?[]\\", c)) r += '\\'; r += c; }
  return r;
}
static void Call(vf::Rng& rng) {
  // a root: the top, a directory, a file, nothing
  int top = -1;
  std::vector<int> dirs;
  for (size_t k = 0; k < nodes.size(); ++k) if (nodes[k].kind == 'd') dirs.push_back(k);
  if (!dirs.empty() && rng.chance(35)) top = rng.of(dirs);
  bool missing = false, noroot = false;
  std::string rel = "tree" + (top < 0 ? "" : "/" + nodes[top].path);
  if (rng.chance(4)) { missing = noroot = true; rel += "/nope"; }
  else if (rng.chance(4)) for (auto& n : nodes) if (n.kind == 'f') { noroot = true; rel = "tree/" + n.path; break; }
  const bool follow = rng.chance(25);
  // the entries below
  std::vector<std::string> paths;
  std::vector<int> up, sizes, at(nodes.size(), 0), removable;
  const std::string pre = top < 0 ? "" : nodes[top].path + "/";
  for (size_t k = 0; k < nodes.size() && !noroot; ++k) {
    if (nodes[k].path.compare(0, pre.size(), pre) != 0) continue;
    paths.push_back(nodes[k].path.substr(pre.size()));
    up.push_back(nodes[k].up == top ? 0 : at[nodes[k].up]);
    sizes.push_back(nodes[k].size);
    at[k] = paths.size();
    removable.push_back(nodes[k].kind == 'd');
    if (nodes[k].kind == 'L' && follow) {
      const int l = paths.size();
      const std::string lp = paths.back();
      for (auto& [s, u, sz] : std::vector<std::tuple<std::string, int, int>>{{"/in", l, 0}, {"/in/deep", l + 1, 0}, {"/f", l, 3}}) { paths.push_back(lp + s); up.push_back(u); sizes.push_back(sz); removable.push_back(0); }
    }
  }
  GlobOptions o;
  o.use_rel_path = rng.chance(50);
  o.recursive = rng.chance(75);
  o.use_current_dir = rng.chance(75);
  if (follow) o.dir_options |= fs::directory_options::follow_directory_symlink;
  Glob2Re2Options ro;
  ro.allow_star_star = rng.chance(85);
  ro.allow_ranges = rng.chance(85);
  ro.re2_options.set_log_errors(false);
  static const std::vector<std::string> pats{"", "", "*", "**", "**/*", "*/*", "a*", "**/a", "a/**", "*/**", "?", "**/?", "*.cc", "**/*.cc", "**/*.{cc}", "[ab]*", "**/[!a]*", "**/file[12]", "dir/*", "**/dir/**", "sub/**/f*", "**/a\\[1\\]", "**/s\\*r", "*\\?", "**/.*", "*/*/*", "[", "x y", "**\n*", "**/in/*", "b", "tree/*"};
  std::string p = rng.of(pats);
  // ways to call
  const int way = rng.below(10);
  const std::string abs = cwd + "/" + rel;
  std::string prefix = abs;
  std::function<absl::Status(const GlobEntryFunc&)> go;
  std::string root = abs;
  const int form = rng.below(9);
  if (form == 1) root = abs + "/";
  else if (form == 2) root = cwd + "/./" + rel;
  else if (form == 3) root = cwd + "/tree/../" + rel;
  else if (form == 4) root = rel;
  else if (form == 5) root = "./" + rel;
  else if (form == 6) root = rel + "/";
  bool chd = false;
  if (form >= 7 && !noroot) { root = form == 7 ? "" : "."; chd = true; }
  if (!o.use_current_dir && (form >= 4 && form <= 6)) prefix = rel;
  if (noroot) prefix = "";
  if (!noroot && way < 2) {
    // split pattern: the tree's name is part of it
    const std::string base = (form & 1) ? cwd + "/" + rel : rel;
    if (p.empty()) p = "*";
    if (p[0] == '[' && p.size() == 1) p = "a";
    if (!ro.allow_ranges && p.find('[') != p.npos) p = "?";
    bool special = false;
    for (size_t i = 0; i < p.size(); ++i) { if (p[i] == '\\') ++i; else if (strchr("*?[", p[i])) special = true; }
    if (!special || p.find("/") != p.npos || p.substr(0, 2) == "**") p = rng.chance(50) ? "*" : "?";
    prefix = !o.use_current_dir && base == rel ? rel : abs;
    chd = false;
    const std::string full = EscapeGlob(base) + "/" + p;
    if (way == 0) go = [=](const GlobEntryFunc& f) { return Glob(GlobSplit(full, ro), ro, o, f); };
    else go = [=](const GlobEntryFunc& f) { return Glob(GlobSplit(fs::path(full), ro), ro, o, f); };
  } else if (way < 4) {
    static const std::vector<std::pair<std::string, std::string>> res{{"", ""}, {"*", "[^/]*"}, {"a*", "a[^/]*"}, {"**.cc", "(?s).*\\.cc"}, {"?", "[^/]"}, {"**", "(?s).*"}, {"**/a", "(?s)(.+/)?a"}};
    const auto& [g, r] = rng.of(res);
    p = g;
    ro.allow_star_star = true;
    const std::string re = r;
    if (way == 2) go = [=](const GlobEntryFunc& f) { const RE2 x(re); return GlobRe2(fs::path(root), x, o, f); };
    else go = [=](const GlobEntryFunc& f) { return GlobRe2(RootAndPattern{.root = root, .pattern = re}, o, f); };
  } else if (way < 5) {
    go = [=](const GlobEntryFunc& f) { return Glob(RootAndPattern{.root = root, .pattern = p}, ro, o, f); };
  } else {
    go = [=](const GlobEntryFunc& f) { return Glob(fs::path(root), p, ro, o, f); };
  }
  static const std::vector<int> codes{1, 2, 9, 13};
  const int fail = rng.of(codes);
  vf::Rec e("open");
  e.bytes("p", p).boolean("ss", ro.allow_star_star).boolean("ranges", ro.allow_ranges).boolean("noroot", noroot).boolean("missing", missing).nums("up", up).bytess("paths", paths).nums("sizes", sizes)
      .boolean("recursive", o.recursive).boolean("userel", o.use_rel_path).bytes("prefix", prefix).num("fail", fail).emit();
  const int style = rng.below(6);
  bool removed = false;
  if (chd && chdir(abs.c_str())) _exit(97);
  int count = 0;
  try {
    const absl::Status st = go([&](const GlobEntry& g) -> absl::StatusOr<GlobEntryAction> {
      int a = 0;
      const std::string path = g.entry.path().native();
      if (++count > 5000) _exit(3);
      if (style == 1 || style == 2) a = rng.chance(40) ? 1 : 0;
      if (style == 3 || style == 2) a = rng.chance(15) ? 2 : a;
      if (style == 4 && rng.chance(20)) a = 3;
      if (style == 5 && o.recursive && !removed) {
        for (size_t i = 0; i < paths.size(); ++i)
          if (removable[i] && path == prefix + "/" + paths[i] && rng.chance(30)) { removed = true; a = 4; fs::remove_all(fs::path(abs) / paths[i]); break; }
      }
      vf::Rec("visit").bytes("path", path).boolean("hasrel", g.rel_path.has_value()).bytes("rel", g.MaybeRelativePath().native()).num("depth", g.depth).num("size", a == 4 ? 0 : (int)g.FileSize()).num("a", a).emit();
      switch (a) {
        case 1: return GlobEntryAction::kDoNotRecurse;
        case 2: return GlobEntryAction::kStop;
        case 3: return absl::Status((absl::StatusCode)fail, "no");
        default: return GlobEntryAction::kContinue;
      }
    });
    vf::Rec("close").num("code", (int)st.code()).emit();
  } catch (const std::exception& x) {
    vf::Rec("threw").str("what", x.what()).emit();
  }
  if (chd && chdir(cwd.c_str())) _exit(97);
  if (removed) { Build(rng); }
}
static void Circle() {
  fs::remove_all("tree");
  fs::create_directories("tree/d");
  fs::create_symlink("../d", "tree/d/again");
  GlobOptions o;
  o.dir_options |= fs::directory_options::follow_directory_symlink;
  int n = 0;
  try {
    const absl::Status st = Glob(fs::path("tree"), "**", {}, o, [&](const GlobEntry&) -> absl::StatusOr<GlobEntryAction> { if (++n > 10000) return GlobEntryAction::kStop; return GlobEntryAction::kContinue; });
    vf::Rec("circle").num("n", n).num("code", (int)st.code()).emit();
  } catch (const std::exception& x) {
    vf::Rec("threw").str("what", x.what()).emit();
  }
}
int main(int, char** argv) {
  static char buf[1 << 20];
  setvbuf(stdout, buf, _IOFBF, sizeof buf);
  vf::Rng rng(strtoull(argv[2], nullptr, 10));
  const bool thorough = std::string(argv[3]) == "thorough";
  cwd = fs::current_path().native();
  for (int h = 0; h < (thorough ? 6000 : 500); ++h) {
    vf::Rec("reset").emit();
    Build(rng);
    for (int i = 0; i < 8; ++i) Call(rng);
  }
  vf::Rec("reset").emit();
  Circle();
}
