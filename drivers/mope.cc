// M01: templates: edits, copies, INI files and expansion.
#include <fstream>
#include <list>
#include <map>
#include <deque>
#include <memory>
#include "mbo/container/any_scan.h"
#include "mbo/file/ini/ini_file.h"
#include "mbo/mope/ini.h"
#include "mbo/mope/mope.h"
#include "trace.h"
using mbo::mope::Template;
using vf::Rec;
using vf::Rng;
using std::string;
using std::vector;
static bool thorough;
static int Code(const absl::Status& s) { return (int)s.code(); }
static string dir;
struct World {
  std::list<Template> roots;
  vector<Template*> nodes;
  World() { roots.emplace_back(); nodes.push_back(&roots.back()); }
  void Set(int id, const string& n, const string& v, bool upd) {
    auto s = upd ? nodes[id - 1]->SetValue(n, v, true) : nodes[id - 1]->SetValue(n, v);
    Rec("set").num("id", id).bytes("n", n).bytes("v", v).boolean("upd", upd).num("code", Code(s)).emit();
  }
  int Add(int id, const string& n) {
    auto s = nodes[id - 1]->AddSection(n);
    Rec("add").num("id", id).bytes("n", n).num("code", Code(s.status())).emit();
    if (s.ok()) { nodes.push_back(*s); return nodes.size(); }
    return 0;
  }
  int Copy(int id) {
    roots.push_back(*nodes[id - 1]); nodes.push_back(&roots.back());
    Rec("copy").num("id", id).emit();
    return nodes.size();
  }
  void Expand(int id, const string& text, const vector<std::pair<string, string>>& ctx = {}, bool with = false) {
    string out = text;
    auto run = [&](string& o) {
      if (ctx.empty() && !with) return nodes[id - 1]->Expand(o);
      if (ctx.size() % 2) { std::deque<std::pair<string, string>> d(ctx.begin(), ctx.end()); return nodes[id - 1]->Expand(o, mbo::container::MakeConvertingScan(d)); }
      return nodes[id - 1]->Expand(o, mbo::container::MakeConvertingScan(ctx));
    };
    auto s = run(out);
    string twice = text;
    auto s2 = run(twice);
    string c = "[";
    for (const auto& [k, v] : ctx) c += string(c.size() > 1 ? "," : "") + "[" + Rec::arrayed(k) + "," + Rec::arrayed(v) + "]";
    bool same = s2 == s && (!s.ok() || twice == out);
    // expanding twice says the same twice
    Rec("expand").num("id", id).bytes("text", text).raw("ctx", c + "]").num("code", same ? Code(s) : 99).bytes("out", s.ok() ? out : "").boolean("again", false).emit();
  }
};
static int traces = 0;
static bool tame = false;  // fewer mistakes
static void Begin() { vf::Reset(++traces); }
static const vector<string> kNames{"a", "b", "s", "t", "i", "n", "m", "name_2", "_x"};
static string Name(Rng& r) { return r.chance(97) ? r.of(kNames) : r.of(vector<string>{"", "9a", "a b", "a-b", "A9_", "a\n", "{{a}}", "\xC3\xA4"}); }
static string Lit(Rng& r) { return r.of(vector<string>{"x", " ", "\n", "\t", "}", "{", "{{", "}}", "a b", "\r\n", "  \n", "\n  ", "{{ a }}", "{{a}", "{{9}}", "{{#}}", "{{/s}}", "$", "{{#a b}}", "{{{{", "|", ",", "{{a="}); }
static string Join(Rng& r) { if (tame && r.chance(90)) return r.of(vector<string>{"\",\"", "','", "\" - \"", "'\\n'", "\"\""}); return r.of(vector<string>{"\",\"", "','", "\"\"", "n", "a", "\", \"", "'\\n'", "\"a", "x y", "\"a\"b\"", "zz", "\" \"\"-\"", "'\\q'", "\"]\"", "\"\\x41\""}); }
static string Num(Rng& r) { if (tame && r.chance(90)) return r.of(vector<string>{"0", "1", "2", "3", "-1"}); return r.of(vector<string>{"0", "1", "2", "3", "-1", "-2", "4", "n", "m", "i", "a", "zz", "0005", "99999999999"}); }
static string Item(Rng& r) { if (tame && r.chance(92)) return r.of(vector<string>{"one", "2", "'a,b'", "\"c]\"", "x\\,y", "d e", ""}); return r.of(vector<string>{"one", "2", "", "'a,b'", "\"c]\"", "x\\,y", "\\]", "  s", "\"un", "\\{", "{{a}}", "d e", "\\x41", "\\u1234", "'q'r"}); }
static string Text(Rng& r, int depth);
static string Tag(Rng& r, int depth) {
  string n = tame ? r.of(depth >= 3 ? vector<string>{"s", "t", "a", "b"} : depth == 2 ? vector<string>{"i", "n", "t", "s", "a"} : vector<string>{"m", "_x", "a", "b", "i", "t"}) : Name(r);
  auto body = [&](const string& name) { string b = r.chance(70) ? Text(r, depth - 1) : "{{" + name + "}}"; if (r.chance(40)) b += "{{" + name + "}}"; return b; };
  auto wrap = [&](const string& config) {
    bool lines = r.chance(35);
    string in = r.chance(50) ? "" : "  ", nl = r.chance(85) ? "\n" : "\r\n";
    string b = body(n), end = r.chance(tame ? 100 : 97) ? "{{/" + n + "}}" : r.chance(50) ? "" : "{{/zz}}";
    return lines ? in + "{{#" + n + config + "}}" + nl + b + (r.chance(80) ? nl : "") + in + end + nl : "{{#" + n + config + "}}" + b + end;
  };
  switch (depth <= 0 ? r.below(4) : r.below(11)) {
    case 0: case 1: case 2: return "{{" + n + "}}";
    case 3: {
      string v = r.of(vector<string>{"v", "1", "2", "3", "a b", "", "}x", "{", "4"});
      string t = "{{" + n + (r.chance(85) ? "=" : ":") + v + "}}";
      return r.chance(40) ? (r.chance(50) ? " " : "") + t + (r.chance(90) ? "\n" : "\r\n") : t;
    }
    case 4: case 5: return wrap("");
    case 6: return wrap(":" + Join(r));
    case 7: {
      string c = "=" + string(r.chance(15) ? " " : "") + Num(r) + (r.chance(10) ? " ;" : ";") + Num(r);
      if (r.chance(50)) c += ";" + string(r.chance(30) ? "" : r.of(vector<string>{"1", "2", "-1", "-2", "n", "0", " 1 "}));
      if (r.chance(35)) { if (c.find(';') == c.rfind(';')) c += ";"; c += ";" + Join(r); }
      return wrap(c);
    }
    case 8: case 9: {
      string c = "=[";
      for (int k = r.below(4), f = 0; k >= 0; --k) { if (f++) c += ","; c += Item(r); if (r.chance(15)) break; }
      if (r.chance(10)) c = "=[";
      c += r.chance(tame ? 100 : 96) ? "]" : "";
      if (r.chance(35)) c += (r.chance(tame ? 100 : 92) ? ";" : ",") + Join(r);
      return wrap(c);
    }
    default: return wrap(tame && r.chance(97) ? string("=") : r.of(vector<string>{"=", "=", "=unknown", "=1", "=1;2;3;4;5", "=[", "=;", "=-;1"}));
  }
}
static string Text(Rng& r, int depth) { string s; for (int k = r.below(5); k > 0; --k) s += r.chance(30) ? Lit(r) : Tag(r, depth); return s; }
static string Value(Rng& r) { return r.of(vector<string>{"1", "2", "3", "-1", " 2 ", "+3", "v", "", "text", "{{a}}", "line\n", "x  ", "4", "\n", "{{#s}}"}); }
static void Edits(Rng& r) {
  tame = r.chance(65);
  Begin(); World w;
  int live = 1;
  for (int k = 2 + r.below(18); k > 0; --k) {
    int id = 1 + (r.chance(40) ? 0 : r.below(w.nodes.size()));
    switch (r.below(8)) {
      case 0: case 1: case 2: w.Set(id, Name(r), Value(r), r.chance(40)); break;
      case 3: case 4: w.Add(id, Name(r)); break;
      case 5: if (w.nodes.size() < 12 && r.chance(25)) w.Copy(id); break;
      default: {
        vector<std::pair<string, string>> ctx;
        if (r.chance(35)) for (int c = r.below(4); c > 0; --c) ctx.emplace_back(Name(r), Value(r));
        w.Expand(id, Text(r, 3), ctx, r.chance(20));
      }
    }
  }
  for (int k = 3; k > 0; --k) w.Expand(1 + (r.chance(60) ? 0 : r.below(w.nodes.size())), Text(r, 3));
  (void)live;
}
// all short texts of a few tokens
static void Tokens() {
  static const vector<string> ts{"x", "\n", " ", "{{a}}", "{{a=v}}", "{{#s}}", "{{/s}}", "{{#a=1;2}}", "{{/a}}", "{{#b=[1,2];','}}{{b}}{{/b}}", "{{", "}}", "{{s}}"};
  Begin(); World w;
  w.Set(1, "t", "7", false);
  int s1 = w.Add(1, "s"); w.Add(1, "s"); w.Set(s1, "a", "y", false);
  int root2 = w.Copy(1); w.Set(root2, "a", "z", false);
  std::function<void(string, int)> go = [&](string t, int left) { w.Expand(1, t); if (left == 0 || t.size() % 3 == 1) w.Expand(root2, t); if (left) for (const auto& k : ts) go(t + k, left - 1); };
  go("", thorough ? 4 : 3);
}
static void Limits() {
  Begin(); World w;
  w.Set(1, "z", "2147483647", false); w.Set(1, "y", "-2147483647", false);
  for (const char* t : {"{{#i=2147483646;2147483647}}{{i}},{{/i}}", "{{#i=2147483645;z;2}}{{i}},{{/i}}", "{{#i=z;z}}{{i}}{{/i}}", "{{#i=y;y}}{{i}}{{/i}}", "{{#i=-2147483646;y;-1}}{{i}},{{/i}}", "{{#i=z;5}}{{i}}{{/i}}", "{{#i=2147483648;3}}{{i}}{{/i}}", "{{#i=5;z;0}}x{{/i}}"}) w.Expand(1, t);
}
// the positions of dictionaries survive more of them
static void Stable(Rng& r) {
  Begin(); World w;
  vector<int> ids;
  for (int k = 0; k < 2 + (int)r.below(12); ++k) { int id = w.Add(ids.empty() || r.chance(60) ? 1 : ids[r.below(ids.size())], r.chance(70) ? "s" : "t"); if (id) ids.push_back(id); }
  for (int k = 0; k < 8; ++k) w.Set(ids[r.below(ids.size())], r.of(kNames), "v" + std::to_string(k), true);
  w.Expand(1, "{{#s:','}}({{a}}{{b}}{{i}}{{n}}{{#s}}[{{a}}{{b}}{{i}}{{m}}]{{/s}}{{#t}}<{{a}}{{b}}{{i}}>{{/t}}){{/s}}{{#t}}({{a}}{{#t}}{{b}}{{/t}}){{/t}}");
  for (int id : ids) w.Expand(id, "{{a}}{{b}}{{s}}|{{i}}{{n}}");
}
static void Ini(Rng& r, int no) {
  Begin(); World w;
  static const vector<string> levels{"a", "b", "s", "s:1", "s:2", "s:1-b", "s:+", "t", "t:", "a:x y", "9", "s:1:2", ""};
  string text;
  auto keys = [&] { for (int k = r.below(4); k > 0; --k) text += r.of(kNames) + (r.chance(97) ? "" : "-") + "=" + r.of(vector<string>{"1", "v", "w x", "", "{{a}}"}) + "\n"; };
  keys();
  for (int g = r.below(9); g > 0; --g) { string name; for (int d = r.chance(10) ? 4 : 1 + r.below(3); d > 0; --d) name += (name.empty() ? "" : ".") + (r.chance(96) ? r.of(levels) : string("9")); if (r.chance(90) && name.find('9') != string::npos) continue; text += "[" + name + "]\n"; keys(); }
  string file = dir + "/t" + std::to_string(no) + ".ini";
  { std::ofstream f(file); f << text; }
  if (r.chance(20)) w.Set(1, r.of(kNames), "before", false);
  if (r.chance(20)) w.Add(1, "s");
  if (w.nodes.size() > 1) { Begin(); w = World(); w.nodes[0] = &w.roots.front(); }
  auto ini = mbo::file::IniFile::Read(file);
  auto s = mbo::mope::ReadIniToTemlate(file, *w.nodes[0]);
  string gs = "[";
  if (ini.ok()) for (const auto& g : ini->GetGroups()) {
    gs += string(gs.size() > 1 ? "," : "") + "[" + Rec::arrayed(g) + ",[";
    bool f = true;
    for (const auto& [k, v] : ini->GetGroupData(g)) { gs += string(f ? "" : ",") + "[" + Rec::arrayed(k) + "," + Rec::arrayed(v) + "]"; f = false; }
    gs += "]]";
  }
  std::remove(file.c_str());
  Rec("ini").raw("gs", gs + "]").num("code", ini.ok() ? Code(s) : 98).emit();
  if (s.ok()) for (int k = 0; k < 2; ++k)
    w.Expand(1, "{{a}}{{b}}{{#s:','}}({{a}}{{b}}{{n}}{{#t}}<{{i}}{{#a}}{{m}}{{/a}}>{{/t}}{{#s:'.'}}[{{a}}{{s}}{{#b}}:{{a}}{{/b}}]{{/s}}){{/s}}{{#t}}/{{_x}}{{name_2}}{{#s}}{{t}}{{/s}}{{/t}}{{#a}}!{{b}}{{i}}{{/a}}{{#b}}?{{a}}{{/b}}" + (k ? Text(r, 2) : ""));
}
int main(int, char** argv) {
  uint64_t seed = strtoull(argv[1], nullptr, 10); thorough = string(argv[2]) == "thorough"; dir = argv[3];
  Rng r(seed);
  Begin();
  for (const char* n : {"", "a", "_", "_9", "9", "a9_Z", "a b", "a-b", "a.b", "#a", "\xC3\xA4", "a\n"}) Rec("name").bytes("n", n).boolean("valid", Template::IsValidName(n)).emit();
  Rec("name").bytes("n", string("a\0b", 3)).boolean("valid", Template::IsValidName(string("a\0b", 3))).emit();
  Tokens(); Limits();
  for (int k = 0; k < (thorough ? 20000 : 2500); ++k) Edits(r);
  for (int k = 0; k < (thorough ? 2000 : 200); ++k) Stable(r);
  for (int k = 0; k < (thorough ? 4000 : 500); ++k) Ini(r, k);
  return 0;
}
