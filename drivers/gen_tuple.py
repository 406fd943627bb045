"""Generates a driver that decomposes aggregates of every supported number of fields.
argv: out.cc seed N... (field counts; a trailing + asks for all shapes of that count)"""
import random, sys
out, seed, counts = sys.argv[1], int(sys.argv[2]), sys.argv[3:]
r = random.Random(seed)
TYPES = ["int", "std::string", "unsigned char", "double", "Tracked", "long", "bool", "Color", "const char*", "std::vector<int>", "std::optional<int>", "float", "std::pair<int, int>", "char", "std::unique_ptr<int>", "Inner1", "unsigned short"]
o = ['#include "mbo/types/tuple_extras.h"', '#include "tuple_common.h"', "// clang-format off"]
shapes = []
lim = "small" in counts
counts = [a for a in counts if a != "small"]
full = [int(a[:-1]) for a in counts if a.endswith("+")]
for n in sorted(int(a.rstrip("+")) for a in counts):
    small = ["unsigned char", "bool", "char", "unsigned short", "bool", "unsigned char"]
    kinds = [("C%d" % n, [small[(i * 5 + n) % 6] for i in range(n)])]
    if not lim or n <= 5:
        kinds += [("M%d" % n, [TYPES[(i * 7 + n) % len(TYPES)] for i in range(n)])]
    if n in full and n and (not lim or n <= 3):
        kinds += [("I%d" % n, ["int"] * n), ("S%d" % n, ["std::string"] * n), ("T%d" % n, ["Tracked"] * n)]
    if n in full and n and (not lim or n <= 5):
        kinds += [("R%d" % n, [r.choice(TYPES) for _ in range(n)])]
    for name, fs in kinds:
        o.append("struct %s { %s };" % (name, " ".join("%s f%d;" % (t, i + 1) for i, t in enumerate(fs))))
        shapes.append((name, fs, "", n))
# inheritance without own state in the bases, or all state in one base
for n in [k for k in full if k in ((0, 1, 2, 3) if lim else (0, 1, 2, 3, 7))]:
    fs = [TYPES[(i * 5 + n) % len(TYPES)] for i in range(n)]
    decl = " ".join("%s f%d;" % (t, i + 1) for i, t in enumerate(fs))
    o.append("struct EB%d : Empty1 { %s };" % (n, decl))
    shapes.append(("EB%d" % n, fs, "", n))
    o.append("struct EC%d : Empty1, Empty2 { %s };" % (n, decl))
    shapes.append(("EC%d" % n, fs, "", n))
    if n and not lim:
        o.append("struct B%d { %s }; struct DB%d : B%d {};" % (n, decl, n, n))
        shapes.append(("DB%d" % n, fs, "", n))
for name, fs, _, n in shapes:
    tl = ", ".join(["%s"] * n) % tuple(fs) if n else ""
    ids = "std::index_sequence_for<%s>{}" % tl if n else "std::index_sequence<>{}"
    ptrs = ", ".join("&s.f%d" % (i + 1) for i in range(n))
    o.append("""template<> struct Shape<%s> { static constexpr const char* name = "%s"; using Types = std::tuple<%s>;
  static auto Fields(%s& s) { (void)s; return std::tuple<%s>(%s); } };""" % (name, name, tl, name, ", ".join(t + "*" for t in fs), ptrs))
o.append("int main(int argc, char** argv) { Setup(argc, argv);")
for name, *_ in shapes:
    o.append("  Observe<%s>();" % name)
o.append("  Extra(); return 0; }")
open(out, "w").write("\n".join(o) + "\n")
