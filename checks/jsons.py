"""J*: JSON documents."""


def build(c):
    return c.build("json", ["json.cc"], shim=True, asan=True, repo_srcs=["mbo/types/stringify.cc", "mbo/log/demangle.cc"], gen=c.gen_headers(throws=True))


def j01(c):
    exe = build(c)
    c.model("JsonMC", "JsonMCDeep" if c.thorough else "JsonMC")
    c.validate("JsonTrace", c.drive(exe, ["edit", c.seed, c.tier]))


def j02(c):
    exe = build(c)
    c.model("JsonTextMC", "JsonTextMCDeep" if c.thorough else "JsonTextMC")
    c.validate("JsonTextTrace", c.drive(exe, ["text", c.seed, c.tier]), shards=8)


CHECKS = {"J01": j01, "J02": j02}
NOTES = {
    "J01": ("TLA+ specification of JSON values and their edits (JsonDoc), model-checked with TLC as nodes that own nodes (JsonMC: the held form denotes the ideal documents, one owner each, nothing lost, whatever is copied or moved into whatever part); recorded histories of edits, queries and comparisons of real documents replayed by TLC (JsonTrace)",
            "Every reachable pair of documents of five nodes within five edits (thorough six nodes, six edits); 500 random histories (thorough 2500) of 60 steps over three documents with self-referential copies and moves, all scalar types as lvalues, const lvalues and rvalues, every removal and iteration; address and undefined-behaviour sanitizers."),
    "J02": ("TLA+ reader of JSON texts (JsonText: tokens, values, decimals against the doubles they denote, layouts), checked with TLC against the grammar and a writer (JsonTextMC); recorded serializations of real documents read and judged by TLC (JsonTextTrace)",
            "All byte sequences of five (thorough six) over the structural alphabet, all documents of two levels in three layouts; every ASCII byte as string and name, random documents with random, extreme and subnormal doubles, 64-bit integers, UTF-8 and control bytes, root prefixes, suffixes and indents."),
}
