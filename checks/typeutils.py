"""T*: type utilities."""
import glob
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor


def t02(c):
    exe = c.build("compare", ["compare.cc"], ct=True)
    c.model("ScalarsMC", workers=4)
    c.validate("CompareTrace", c.drive(exe, ["all", c.seed, c.tier]), weight=len)


def t04(c):
    exes = c.build_many([dict(name="search", srcs=["search.cc"], flags=["-DVF_N=%d" % c.pick(5, 6), "-ftemplate-depth=2000"]),
                         dict(name="search_clang", srcs=["search.cc"], flags=["-DVF_N=4", "-ftemplate-depth=2000"], cxx="clang++")])
    for e in exes:
        c.validate("SearchTrace", c.drive(e), label=e.split("/")[-1], weight=len)


def t05(c):
    exe = c.build("tstring", ["tstring.cc"], flags=["-DVF_THOROUGH"] if c.thorough else [], opt="-O0")
    c.validate("TStringTrace", c.drive(exe), weight=len)


def t03(c):
    groups = [(cc, g.split()) for cc, gs in (
        ("g++", c.pick(["small 0+ 3+ 40", "small 1+ 2+ 24", "small 4+ 6 9", "small 5+ 12 16", "small 7 8 32"],
                       ["small 0+ 3+ 40", "small 1+ 2+ 24", "small 4+ 6 9", "small 5+ 12 16", "small 7 8 32", "small 10 11 13 14 15 17 18",
                        "small 19 20 21 22 23 25", "small 26 27 28 29 30", "small 31 33 34 35", "small 36 37 38 39"])),
        ("clang++", c.pick(["0+ 3+ 17 22", "1+ 2+ 19 23 29", "7+ 35 36 6", "21+ 4 5 9 10", "34+ 12 14 15", "40+ 16 18", "13+ 33 24 25 26", "8+ 20 27 28", "11 30 31 32", "37 38 39"],
                           ["%d+ %d+ %d+" % (i, i + 14, i + 27) if i < 14 else "" for i in range(14)])) ) for g in gs if g]

    def one(job):
        i, (cc, args) = job
        src = "%s/tuple%d.cc" % (c.work, i)
        args = [a for a in args if a == "small" or int(a.rstrip("+")) <= 40]
        subprocess.run(["python3", c.verif + "/drivers/gen_tuple.py", src, str(c.seed)] + args, check=True)
        exe = c.build("tuple%d" % i, [src], flags=["-ftemplate-depth=5000"] if cc == "g++" else [], opt="-O0", cxx=cc if cc == "clang++" else None)
        return c.drive(exe, [c.seed, c.tier])
    c.gen_headers()
    c.model("TupleAlias", workers=2)
    with ThreadPoolExecutor(8) as ex:
        lines = [x for part in ex.map(one, enumerate(groups)) for x in part]
    c.validate("TupleTrace", lines, weight=len)


def t10(c):
    g, l = c.build_many([dict(name="variant", srcs=["variant.cc"], opt="-O0"), dict(name="variant_clang", srcs=["variant.cc"], opt="-O0", cxx="clang++")])
    c.validate("VariantTrace", c.drive(g) + c.drive(l), weight=len)


def t08(c):
    g, l = c.build_many([dict(name="proxy", srcs=["proxy.cc"], shim=True, asan=True), dict(name="proxy_clang", srcs=["proxy.cc"], shim=True, cxx="clang++")])
    c.model("Proxies")
    c.validate("ProxyTrace", c.drive(g, [c.seed, c.tier]) + c.drive(l, [c.seed + 1, c.tier]), weight=len)


def holders(c, n):
    f = c.gen_headers(throws=False)
    jobs = [dict(name="holders", srcs=["holders.cc"], shim=True, asan=True, gen=f, flags=["-DVF_SET=%d" % n], repo_srcs=log_srcs(c)),
            dict(name="holders_clang", srcs=["holders.cc"], shim=True, gen=f, flags=["-DVF_SET=%d" % n], cxx="clang++", std="c++23", repo_srcs=log_srcs(c))]
    g, l = c.build_many(jobs)
    c.model("Holders")
    c.validate("HoldersTrace", c.drive(g, ["all", c.seed, c.tier], timeout=600) + c.drive(l, ["all", c.seed + 1, c.tier], timeout=600), weight=len)
    c.model("Lifetimes")
    c.validate("LifeTrace", c.drive(g, ["life", c.seed, c.tier], timeout=600), weight=len)


def log_srcs(c):
    return [os.path.relpath(x, c.repo) for x in sorted(glob.glob(c.repo + "/mbo/log/*.cc")) if not re.search("_test.cc|_main.cc|benchmark", x)]


def t09(c):
    jobs = [dict(name="print%d%s" % (g, cc[0]), srcs=["stringify.cc"], repo_srcs=["mbo/types/stringify_ostream.cc"], shim=True, opt="-O0", cxx=cc if cc == "clang++" else None,
                 flags=["-DVF_GROUP=%d" % g] + (["-ftemplate-depth=5000"] if cc == "g++" else [])) for cc in ("g++", "clang++") for g in range(8)]
    exes = c.build_many(jobs)
    c.model("StringifyMC", cfg="StringifyMCDeep" if c.thorough else None, workers=8)

    def run(e):
        return c.drive(e, [c.seed + (100 if e.endswith("c") else 0), c.pick(24, 200)], name=e.split("/")[-1])
    with ThreadPoolExecutor(8) as ex:
        lines = [x for part in ex.map(run, exes) for x in part]
    c.validate("StringifyTrace", lines, weight=len)


CHECKS = {"T10": t10, "T08": t08, "T01": lambda c: holders(c, 0), "T06": lambda c: holders(c, 1), "T07": lambda c: holders(c, 2), "T03": t03, "T05": t05, "T02": t02, "T04": t04, "T09": t09}
NOTES = {
    "T09": ("TLA+ definition of the text of a value in a format, model-checked against a JSON grammar; TLC judges recorded prints, comparisons and constructions of real structs", "14 kinds of structs (extended and plain, with names given, denied or from the compiler, with seven forms of formats of their own for their fields) over about 60 field types, nested; random values; the seven built-in formats, random formats (every group of options), random root options; through every printing function; with gcc and clang. Comparison in all forms with the same type, tuples and other structs; equal hashes of equal values; construction. Not covered: char pointers as fields, types which print themselves in JSON, tuples as fields, long double, StringifyNameHandling::kVerify."),
    "T10": ("TLA+ overload selection and type terms; TLC judges every instantiation", "Every combination of overload forms for two alternatives, every subset of overloads for five, three ways of passing the variant, visits of two variants; type tests over 150 wrapped types and 216 pairs of variant and member."),
    "T08": ("TLA+ machine of ideal sequences model-checked by TLC; recorded histories through real proxies and recorded view pipelines replayed on it", "Proxies over vectors, deques, lists, sets and arrays by accessor, dereference and opaque holders, 60-step random histories from both sides, all views of 13 pipelines over lengths 0..8; both compilers."),
    "T01": ("TLA+ machine of cells and holders model-checked by TLC; every operation from every pair of states and random histories of the real types replayed on it, and the lives of owned values on a machine of object lives", "Required, RefWrap and NoDestruct over int, heap strings, move-only and recording elements, both compilers; comparisons with each other and with values, hashes and printed forms in every pair of states."),
    "T06": ("TLA+ machine of cells and holders model-checked by TLC; every operation from every pair of states and random histories of the real types replayed on it, and the lives of owned values on a machine of object lives", "OptionalRef and OptionalDataOrRef with mutable and const references over int, heap strings and recording elements, both compilers; reads and writes without a value in processes of their own."),
    "T07": ("TLA+ machine of cells and holders model-checked by TLC; every operation from every pair of states and random histories of the real types replayed on it, and the lives of owned values on a machine of object lives", "OpaqueValue and OpaquePtr over heap strings and recording elements, both compilers; sharing and moved-from states included."),
    "T03": ("TLA+ machine of an aggregate and its aliases model-checked by TLC; recorded decompositions and write histories replayed on it", "Every field count 0..40 with clang (several shapes each, including bases), 0..40 selected counts with gcc; every field written directly and through the tuple of references, values moved out with copy and move counting."),
    "T05": ("TLA+ string operators; TLC judges every instantiation", "All pairs of 28 (38) compile-time strings with 23 needles (all words over {a,b} to length 3, NUL and high bytes), all substrings, positions and character searches."),
    "T04": ("TLA+ operators over index sets; TLC judges every instantiation", "All predicates over 5 (6) indices and all ranges for each search and default; thresholds over ranges to 130; all condition vectors up to 7 cases; both compilers."),
    "T02": ("TLA+ total order model-checked by TLC; recorded comparison matrices judged against it", "19x19 arithmetic types with every boundary of every width, NaN, infinities, denormals; the order itself proved total over all triples of a representative set."),
}
