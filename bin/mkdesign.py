#!/usr/bin/env python3
"""Rewrites the per-property section of DESIGN.md (between the markers) from properties.jsonl, the checks' notes and the
table below. Run after changing any of them."""
import json, re, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
# id: (specification modules, driver, oracle, seconds of the quick check on 8 cores)
M = {
 "D01": ("Digests, DigestConsts, DigestBig", "digest.cc", "FIPS 180-4 and RFC 1321 written as TLA+ operators over 32 bit words in limbs (Words.tla)", 50),
 "D02": ("Digests", "digest.cc", "FIPS 202 (Keccak-f as operators; no code shared with /repo)", 45),
 "D03": ("Digests", "digest.cc", "RFC 7693 and the BLAKE3 paper as operators, including the chunk tree", 25),
 "D04": ("DigestStream (+Eager, Lazy models), Digests", "digest.cc", "ideal stream machine: what was fed so far, what a peek or copy must give", 40),
 "D05": ("Digests", "digest.cc", "RFC 2104 as an operator over any digest", 90),
 "D06": ("Checksums", "digest.cc", "the form of a checksum line as a predicate on its characters", 20),
 "D07": ("DigestTool, Digests, Checksums", "digest_tool.py", "machine of files, their changes and the tool's outcome", 20),
 "H01": ("Hashes, HashConsts", "hash.cc", "published definitions (SipHash, xxHash, Murmur, FNV, ...) as operators", 35),
 "H02": ("DigestStream, Hashes", "hash.cc", "ideal stream machine", 20),
 "H03": ("Hashes", "hash.cc", "definitions of width reduction, combination and mangling", 28),
 "H04": ("HashTrace", "hash.cc", "dependence predicates: same bytes and seed, same value; any changed byte or seed bit, another value", 12),
 "H05": ("Hashes", "hash.cc", "the in-house functions transcribed once as operators (their values are the promise)", 12),
 "H06": ("Hashes", "bzl_hash.py", "the same operators the C++ values are judged by", 17),
 "T01": ("Holders, Lifetimes", "holders.cc", "machine of cells and holders", 8),
 "T02": ("Scalars", "compare.cc", "order of the mathematical values", 40),
 "T03": ("TupleAlias", "gen_tuple.py", "machine of an aggregate whose fields are aliased", 35),
 "T04": ("SearchTrace", "search.cc", "first, last, max as set expressions", 30),
 "T05": ("Strings, TStringTrace", "tstring.cc", "occurrence sets", 60),
 "T06": ("Holders, Lifetimes", "holders.cc", "machine of cells and holders", 25),
 "T07": ("Holders, Lifetimes", "holders.cc", "machine of cells and holders", 60),
 "T08": ("Proxies", "proxy.cc", "machine of ideal sequences under two handles", 25),
 "T09": ("Stringify", "stringify.cc", "recursive definition of the text of a value in a format; JSON grammar; field-wise order", 45),
 "T10": ("VariantTrace", "variant.cc", "overload resolution as selection over argument forms", 40),
 "L01": ("LogScopes", "logscope.cc", "machine of open scopes and sinks", 15),
 "L02": ("Timing", "timing.cc", "machine of timing scopes under clock, flags, log; composition of function names", 30),
 "L03": ("Mangling", "demangle.cc", "type terms with both their names", 25),
 "C01": ("BoundedSeq", "limited_vector.cc", "machine of bounded sequences", 12),
 "C02": ("BoundedMap", "limited_ordered.cc", "machine of bounded sorted maps (sets: no values)", 50),
 "C03": ("BoundedMap", "limited_ordered.cc", "machine of bounded sorted maps", 45),
 "C04": ("Lifetimes", "limited_vector.cc, limited_ordered.cc, life.h", "machine of object lives: every address is alive or not", 50),
 "C05": ("Scans", "scan.cc", "machine of several positions in one sequence", 48),
 "S01": ("Quoting", "strings.cc", "scanner state machine", 58),
 "S02": ("Quoting, StringsTrace", "strings.cc", "comment removal defined on the scanner", 30),
 "S03": ("StringsTrace", "strings.cc", "definition on the lines of the text", 27),
 "S04": ("StringsTrace", "strings.cc", "decimal digits of words in limbs", 16),
 "S05": ("Strings, StringsTrace", "strings.cc", "occurrence sets", 17),
 "F01": ("Paths", "files.cc", "element lists of paths", 15),
 "F02": ("Globs", "glob.cc", "matching by definition over tokens", 20),
 "F03": ("Walks, Globs", "walk.cc", "machine of a walk over a tree", 16),
 "F04": ("Ini", "ini.cc", "machine of INI content", 14),
 "F05": ("FileStore", "files.cc", "machine of a file store", 19),
 "F06": ("GlobTool, Globs", "glob_tool.py", "entries wanted, lines and table by GlobTool from the tree as it was made", 45),
 "X01": ("Diffs", "diff.cc", "a machine that applies the printed hunks to the left text and must produce the right one", 24),
 "X02": ("Diffs", "diff.cc", "least edit cost by dynamic programming in the specification", 43),
 "X04": ("DiffTool, Diffs", "diff_tool.py", "the options a command line means by DiffTool, then the diff as in X01-X03; exit codes", 60),
 "X03": ("Diffs", "diff.cc", "normal forms of lines by options", 43),
 "J01": ("JsonDoc", "json.cc", "ideal documents; machine of nodes that own nodes", 19),
 "J02": ("JsonText", "json.cc", "RFC 8259 reader written as operators, decimals against doubles", 37),
 "M01": ("Mope", "mope.cc", "recursive expansion; stack machine", 34),
 "M02": ("MopeTool, Mope, Ini", "mope_tool.py", "the settings a command line means by MopeTool, then the expansion as in M01; all files before and after", 68),
 "U01": ("StatusBuild", "status.cc", "builder machine; call-chain machine", 39),
 "G01": ("Matchers, Indents", "matchers.cc", "value each matcher term accepts; laws between matchers; the macros as a machine of one fatal exit", 40),
 "P01": ("MdTables", "tools_md.py", "line machine, relation of aligned documents", 21),
 "P02": ("Coverage", "tools_coverage.py", "meaning of reports, markers and policies", 19),
 "P03": ("Caches", "tools_caches.py", "store machine; which sets may be expired", 40),
 "P04": ("BuildRules", "tools_build.py", "grammar of build files", 10),
 "P05": ("CoverageSite", "tools_site.py", "machine of the published site", 25),
}
props = [json.loads(l) for l in open(V / "properties.jsonl")]
man = {c["property"]: c for c in json.load(open(V / "MANIFEST.json"))["checks"]}
out = []
for p in props:
    spec, drv, oracle, cost = M[p["id"]]
    c = man[p["id"]]
    out.append(f"### {p['id']} {p['title']}\n\n* *Specified:* {spec} (`spec/`); *exercised by* `drivers/` {drv}.\n* *Decided by:* {c['technique']}.\n* *Oracle:* {oracle}.\n"
               f"* *Bounds:* {c['level_note']}\n* *Cost:* about {cost} s quick (8 cores, build included).\n* *Tests cannot:* {p['why_tests_cant']}\n")
f = V / "DESIGN.md"
s = f.read_text()
s = re.sub(r"(<!-- properties -->\n).*(<!-- /properties -->)", lambda m: m[1] + "\n".join(out) + "\n" + m[2], s, flags=re.S)
f.write_text(s)
