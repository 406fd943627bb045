// F04: histories of INI files.
#include <filesystem>
#include <fstream>
#include <sstream>

#include "mbo/file/ini/ini_file.h"
#include "trace.h"
using mbo::file::IniFile;

static vf::Rec& Show(vf::Rec& r, const IniFile& ini) {
  std::string es = "[";
  for (const auto& g : ini.GetGroups())
    for (const auto& [k, v] : ini.GetGroupData(g))
      es += std::string(es.size() > 1 ? "," : "") + "[" + vf::Rec::arrayed(g) + "," + vf::Rec::arrayed(k) + "," + vf::Rec::arrayed(v) + "]";
  std::vector<std::string> gs;
  for (const auto& g : ini.GetGroups()) gs.push_back(g);
  return r.raw("es", es + "]").bytess("gs", gs).num("size", ini.size()).boolean("empty", ini.empty());
}
static void Load(IniFile& ini, const std::string& t, bool file) {
  vf::Rec r("load");
  r.bytes("t", t);
  if (file) {
    { std::ofstream("in.ini", std::ios::binary) << t; }
    auto s = IniFile::Read("in.ini");
    if (!s.ok()) { vf::Rec("noread").emit(); return; }
    ini = *std::move(s);
  } else {
    ini = IniFile::Parse(t);
  }
  Show(r, ini).emit();
}
static void Reset(IniFile& ini) {
  ini = IniFile::NewEmpty();
  vf::Rec r("reset");
  Show(r, ini).emit();
}
static void Get(const IniFile& ini, const std::string& g, const std::string& k, const std::string& def, bool with) {
  const IniFile::GroupKey gk{.group = g, .key = k};
  const auto s = ini.GetKeyOrStatus(gk);
  std::string gd = "[";
  for (const auto& [a, b] : ini.GetGroupData(g)) gd += std::string(gd.size() > 1 ? "," : "") + "[" + vf::Rec::arrayed(a) + "," + vf::Rec::arrayed(b) + "]";
  vf::Rec("get").bytes("g", g).bytes("k", k).bytes("def", with ? def : "").boolean("has", ini.HasKey(gk)).num("code", (int)s.status().code())
      .bytes("v", s.ok() ? *s : std::string()).bytes("dv", with ? ini.GetKeyOrDefault(gk, def) : ini.GetKeyOrDefault(gk)).raw("gd", gd + "]").emit();
}
static void Write(const IniFile& ini) {
  const bool ok = ini.Write("out.ini").ok();
  std::stringstream ss;
  ss << std::ifstream("out.ini", std::ios::binary).rdbuf();
  auto back = IniFile::Read("out.ini");
  vf::Rec r("write");
  r.boolean("ok", ok && back.ok()).bytes("t", ss.str());
  Show(r, back.ok() ? *back : IniFile::NewEmpty()).emit();
}
int main(int, char** argv) {
  static char buf[1 << 20];
  setvbuf(stdout, buf, _IOFBF, sizeof buf);
  vf::Rng rng(strtoull(argv[2], nullptr, 10));
  const bool thorough = std::string(argv[3]) == "thorough";
  IniFile ini = IniFile::NewEmpty();
  // all short texts
  std::vector<std::string> all{""};
  size_t from = 0;
  for (int len = 0; len <= (thorough ? 6 : 5); ++len) {
    const size_t to = all.size();
    for (size_t i = from; i < to; ++i) {
      if (i % 400 == 0) Reset(ini);
      Load(ini, all[i], false);
      for (char c : std::string_view("a=[]\n ;")) all.push_back(all[i] + c);
    }
    from = to;
  }
  static const std::vector<std::string> word{"", "a", "b", "key", "Key", " a", "a ", "\ta\r", "a b", "g1", "g 1", "[", "]", "[g]", ";a", "#", "a;b", "a#b", "x.y", "\xc3\xa4", "k]", "[k", "a=b", "=", "0"};
  static const std::vector<std::string> plain{"a", "b", "key", "g1", "x.y", "a b", "v = w", ";v", "#", "[v]"};
  static const std::vector<std::string> padded{"a", "b", "key", " a", "a\t", "g1", "x.y", "a b", "", "g"};
  static const std::vector<std::string> eol{"\n", "\n", "\n", "\r\n", "\n\n", "\n \t\n", "\r\n\r\n", "\n\v\n"};
  auto text = [&] {
    std::string s;
    for (int n = rng.below(9); n > 0; --n) {
      const int k = rng.below(10);
      if (rng.chance(20)) s += rng.chance(50) ? " " : "\t ";
      if (k < 5) s += rng.of(word) + (rng.chance(30) ? " = " : "=") + rng.of(word);
      else if (k < 8) s += "[" + rng.of(word) + "]";
      else if (k < 9) s += (rng.chance(50) ? ";" : "#") + rng.of(word) + "=" + rng.of(word);
      else s += rng.of(word);
      if (n > 1 || rng.chance(70)) s += rng.of(eol);
    }
    return s;
  };
  for (int h = 0; h < (thorough ? 8000 : 900); ++h) {
    Reset(ini);
    const bool tame = rng.chance(60);
    auto some = [&](bool value) { return tame ? (value && rng.chance(20) ? std::string() : value ? rng.of(plain) : rng.of(padded)) : rng.of(word); };
    for (int n = 4 + rng.below(12); n > 0; --n) {
      const int k = rng.below(10);
      if (k < 2) Load(ini, text(), rng.chance(50));
      else if (k < 6) {
        const std::string g = some(false), key = some(false);
        const int kind = rng.below(6);
        vf::Rec r("set");
        r.bytes("g", g).bytes("k", key);
        if (kind == 0) { const int v = (int)rng.below(2000) - 1000; ini.SetKey({.group = g, .key = key}, v); r.bytes("v", std::to_string(v)); }
        else if (kind == 1) { ini.SetKey({.group = g, .key = key}); r.bytes("v", ""); }
        else if (kind == 2) { const std::string v = rng.of(word); ini.SetKey({.group = g, .key = key}, std::string_view(v)); r.bytes("v", v); }
        else { std::string v = tame ? some(true) : rng.of(word) + rng.of(word); r.bytes("v", v); ini.SetKey({.group = g, .key = key}, std::move(v)); }
        Show(r, ini).emit();
      } else if (k < 9) Get(ini, some(false), some(false), rng.of(word), rng.chance(70));
      else Write(ini);
    }
    Write(ini);
  }
}
