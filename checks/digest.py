"""D01-D07: digests against executable definitions of the standards (Digests.tla), and the checksum tool (DigestTool.tla)."""
import glob, json
import files

FLAGS = ["-fconstexpr-ops-limit=2000000000", "-fconstexpr-loop-limit=10000000"]


def job(mode, opt="-O1"):
    return dict(name="digest_" + mode, srcs=["digest.cc"], flags=["-DVF_" + mode] + FLAGS, opt=opt, ct=mode != "big")


def weight(x):  # cost of judging = compressions, dominated by the message length
    op = x[7:12]
    if op.startswith("split") or op.startswith("raw") or op.startswith("hp") or op.startswith("hl"):
        return 1
    return 2 + len(x) // 60


MD = "md5 sha1 sha224 sha256 sha384 sha512 sha512_224 sha512_256".split()
SHA3 = "sha3_224 sha3_256 sha3_384 sha3_512".split()
BLAKE = "blake2b blake2b_256 blake3".split()


def big(c, exe, algs, mode, lens):
    jobs = [(a, mode, n) for n in sorted(lens, reverse=True) for a in algs]
    res = list(c.ex.map(lambda j: c.drive(exe, [j[1], c.seed, c.tier, j[0], j[2]], timeout=300, name="big_%s_%s_%d" % j), jobs))
    return [x for r in res for x in r]


def d01(c):
    exe, bexe = c.build_many([job("md"), job("big", "-O2")])
    lines = [x for r in c.ex.map(lambda a: c.drive(exe, ["md", c.seed, c.tier, a]), MD) for x in r]
    L = [2**29 - 1, 2**29 + 1]
    algs = ["md5", "sha1", "sha256", "sha512"]
    lines2 = big(c, bexe, MD if c.thorough else algs, "big", L + ([2**32 + 5]))
    c.validate("DigestTrace", lines, label="values", weight=weight)
    c.validate("DigestTrace", lines2, label="big", shards=1)
    c.assumptions += ["golden digests of the three huge inputs were computed once by OpenSSL (DigestBig.tla)"]


def d02(c):
    e1, e2, bexe = c.build_many([job("sha3"), job("shake"), job("big", "-O2")])
    r = list(c.ex.map(lambda j: c.drive(j[0], [j[1], c.seed, c.tier]), [(e1, "sha3"), (e2, "shake")]))
    c.validate("DigestTrace", r[0] + r[1], weight=weight)
    c.validate("DigestTrace", big(c, bexe, ["sha3_256"], "big", [2**29 + 1] + ([2**32 + 5] if c.thorough else [])), label="big", shards=1)


def d03(c):
    exe, bexe = c.build_many([job("blake"), job("big", "-O2")])
    lines = c.drive(exe, ["blake", c.seed, c.tier])
    lines2 = big(c, bexe, ["blake2b", "blake2b_256", "blake3"], "big", [2**29 + 1, 2**32 + 5])
    c.validate("DigestTrace", lines, weight=weight)
    c.validate("DigestTrace", lines2, label="big", shards=1)


def d04(c):
    t = "T" if c.thorough else ""
    exes = c.build_many([job("splits"), job("hist"), job("ctstream"), job("big", "-O2")])
    c.model("DigestStream", "DigestStreamEager" + t, workers=8)
    c.model("DigestStream", "DigestStreamLazy" + t, workers=8)
    ALL = MD + SHA3 + BLAKE + ["shake128", "shake256"]
    lines = [x for r in c.ex.map(lambda a: c.drive(exes[0], ["splits", c.seed, c.tier, a]), ALL) for x in r]
    hist = [x for r in c.ex.map(lambda a: c.drive(exes[1], ["hist", c.seed, c.tier, a]), ALL) for x in r]
    lines += c.drive(exes[2], ["ctstream", c.seed, c.tier])
    algs = ["md5", "sha1", "sha256", "sha512", "blake2b", "blake3"]
    bl = big(c, exes[3], algs, "bigstream", [2**29 + 1] + ([2**32 + 5] if c.thorough else []))
    if not c.thorough:
        bl += big(c, exes[3], ["md5", "sha256", "sha512", "blake3", "blake2b"], "bigstream", [2**32 + 5])
    c.validate("DigestTrace", lines, label="splits", weight=lambda x: 1 + len(x) // 2000)
    c.validate("DigestTrace", bl, label="big", shards=1)
    c.validate("DigestStreamTrace", hist, label="histories", weight=lambda x: 5 if '"peek"' in x[:20] else 1)


def d05(c):
    exe = c.build(**job("hmac"))
    ALL = MD + SHA3 + BLAKE + ["shake128", "shake256"]
    lines = [x for r in c.ex.map(lambda a: c.drive(exe, ["hmac", c.seed, c.tier, a]), ALL) for x in r]
    c.validate("DigestTrace", lines, weight=lambda x: weight(x) + 4)


def d06(c):
    exe = c.build("checkline", ["checkline.cc"], asan=True, repo_srcs=["mbo/digest/checksum.cc"])
    c.model("DigestToolMC")
    c.validate("DigestToolTrace", c.drive(exe, [c.seed, c.tier]), weight=len)


def d07(c):
    srcs = ["mbo/digest/digest_main.cc"] + [f[len(c.repo) + 1:] for d in ("digest", "strings") for f in sorted(glob.glob(c.repo + "/mbo/%s/*.cc" % d)) if not f.endswith(("_test.cc", "_main.cc", "_benchmark.cc"))] + ["mbo/status/status_builder.cc"]
    exe = c.build("digest_tool", [], shim=True, repo_srcs=srcs)
    c.model("DigestToolMC")
    d = files.scratch(c)
    n = 8
    r = c.ex.map(lambda i: c.drive("/usr/bin/python3", [c.verif + "/drivers/digest_tool.py", exe, c.seed, c.tier, i, n], name="tool%d" % i, cwd=d, timeout=600), range(n))
    c.validate("DigestToolTrace", [x for y in r for x in y], weight=weight)


CHECKS = {"D01": d01, "D02": d02, "D03": d03, "D04": d04, "D05": d05, "D06": d06, "D07": d07}
_T = "TLA+ executable specification of the standards, TLC judges recorded calls (trace validation)"
NOTES = {
    "D01": (_T, "Every length through two blocks plus sampled lengths, all algorithms, run time and constant evaluation, judged by TLC against Digests.tla; three huge lengths against golden values in DigestBig.tla."),
    "D02": (_T, "Every length through the rate boundaries, output lengths 1..140 and sampled longer ones, judged by TLC against the FIPS 202 sponge in Digests.tla; SHA3-256 of 2^29 + 1 bytes (thorough 2^32 + 5) against golden values."),
    "D03": (_T, "Every length through two blocks, key lengths 0..64, chunk-tree shapes up to 17 (40) chunks, output lengths 1..140 and 16520, judged by TLC against Digests.tla; messages of 2^29 + 1 and 2^32 + 5 bytes (half a million and four million chunks) against golden values of independent programs."),
    "D04": ("TLA+ stream machine model-checked by TLC; recorded stream histories validated against it", "DigestStream.tla explored exhaustively within its bounds; every two-way split of every length through two blocks and random multi-stream histories of the real code are validated against it."),
    "D05": (_T, "Key length classes around the block size for all 17 algorithms, streaming with mid-stream peeks and copies, judged by TLC against HMAC in Digests.tla."),
    "D06": ("TLA+ specification of checksum lines (Checksums), promises (printed lines are read back, only lines of the form are read) model-checked with TLC; recorded calls judged by it",
            "All lines to length 6 (thorough 7) over seven characters times six widths, every byte at every place of a line, thousands of mutated real lines, widths around the largest integers; address sanitizer."),
    "D07": ("TLA+ state machine of the checksum tool and its files (DigestTool), promises (what is printed verifies exactly while unchanged) model-checked with TLC; "
            "recorded histories of the real program replayed on it, digests by the definitions in Digests.tla",
            "120 (thorough 1500) histories of about 23 steps: all 17 algorithms, 19 kinds of names, files, links, directories, missing files, every flag, standard input, several and unreadable checksum files, mutated lines."),
}
