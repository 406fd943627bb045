"""H01-H05: hashes against executable definitions (Hashes.tla)."""
FLAGS = ["-fconstexpr-ops-limit=2000000000", "-fconstexpr-loop-limit=10000000"]
CANON = "fnv1a siphash murmur3 xxh64 xxh3 rapidhash".split()
HOUSE = "mumbo jumbo fambo dumbo tembo7_8 tembo4_4".split()
STREAM = "mumbo jumbo siphash xxh64".split()


def job(mode, opt="-O1"):
    return dict(name="hash_" + mode, srcs=["hash.cc"], flags=["-DVF_" + mode] + FLAGS, opt=opt, ct=mode in ("values", "stream"))


def each(c, exe, mode, algs, timeout=300):
    return [x for r in c.ex.map(lambda a: c.drive(exe, [mode, c.seed, c.tier, a], timeout=timeout), algs) for x in r]


def weight(x):
    return 3 + len(x) // 50


def h01(c):
    exe, huge = c.build_many([job("values"), job("huge", "-O2")])
    c.validate("HashTrace", each(c, exe, "canon", CANON + ["extra"]), weight=weight)
    c.validate("HashTrace", each(c, huge, "huge", CANON + ["sip"]), label="huge", shards=1)


def h02(c):
    t = "T" if c.thorough else ""
    exe = c.build(**job("stream", "-O2"))
    c.model("DigestStream", "DigestStreamEager" + t, workers=8)
    c.model("DigestStream", "DigestStreamLazy" + t, workers=8)
    splits = each(c, exe, "splits", STREAM)
    hist = each(c, exe, "hist", STREAM)
    splits += each(c, exe, "big", ["mumbo", "siphash", "xxh64"])
    c.validate("HashTrace", splits, label="splits", weight=lambda x: 1 + len(x) // 2000)
    c.validate("HashStreamTrace", hist, label="histories", weight=lambda x: 5 if '"peek"' in x[:20] else 1)


def h03(c):
    exe = c.build(**job("derive"))
    c.validate("HashTrace", each(c, exe, "derive", CANON + HOUSE + ["extra"]), weight=weight)


def h04(c):
    exe = c.build(**job("pure", "-O2"))
    c.validate("HashTrace", each(c, exe, "pure", CANON + HOUSE))


def h06(c):
    lines = c.drive("/usr/bin/python3", [c.verif + "/drivers/bzl_hash.py", c.repo, c.seed, c.tier], name="bzl")
    c.validate("HashTrace", lines, weight=weight)


def h05(c):
    exe, huge = c.build_many([job("values"), job("huge", "-O2")])
    c.validate("HashTrace", each(c, exe, "house", HOUSE + ["extra"]), weight=weight)
    c.validate("HashTrace", each(c, huge, "huge", HOUSE), label="huge", shards=1)


CHECKS = {"H01": h01, "H02": h02, "H03": h03, "H04": h04, "H05": h05, "H06": h06}
_T = "TLA+ executable specification of the hash definitions, TLC judges recorded calls (trace validation)"
NOTES = {
    "H01": (_T, "Every length 0..260 and sampled longer ones through every branch, eight seed classes, run time and constant evaluation, judged by TLC against Hashes.tla (published definitions); a message of 2^32 + 5 bytes against golden values of independent programs (HashBig.tla)."),
    "H02": ("TLA+ stream machine model-checked by TLC; recorded stream histories validated against it", "DigestStream.tla explored exhaustively within its bounds; every two-way split of every length through two blocks, three-way splits of short ones, and random multi-stream histories validated; one input beyond 4 GiB."),
    "H03": (_T, "32/64/128-bit, mangled, combined and folded forms of 15 algorithm kinds judged against their definitions."),
    "H04": ("TLA+ predicates over recorded observations judged by TLC", "Each length at 18 placements with guard pages; every byte position, every seed bit and adjacent swaps observed for lengths to 530."),
    "H06": (_T, "hash.bzl executed (Starlark evaluated by Python) on every length 0..149 and sampled longer ones, byte lists and printable text, five seed kinds; judged by TLC against Hashes.tla."),
    "H05": (_T, "Every length 0..260 and sampled longer ones, 19 tembo shapes, judged by TLC against Hashes.tla; a message of 2^32 + 5 bytes against this release's values (HashBig.tla)."),
}
