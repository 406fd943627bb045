"""S*: strings."""
import glob


def srcs(c):
    return [f[len(c.repo) + 1:] for f in sorted(glob.glob(c.repo + "/mbo/strings/*.cc")) if not f.endswith(("_test.cc", "_benchmark.cc"))]


def judge(c, n, model=None, ct=False):
    exe = c.build("strings", ["strings.cc"], shim=True, asan=True, repo_srcs=srcs(c) + ["mbo/status/status_builder.cc"], ct=ct)
    if model:
        c.model(model)
    c.validate("StringsTrace", c.drive(exe, [n, c.seed, c.tier]), weight=len)


CHECKS = {
    "S01": lambda c: judge(c, 1, "QuotingMC"),
    "S02": lambda c: judge(c, 2, "QuotingMC"),
    "S03": lambda c: judge(c, 3),
    "S04": lambda c: judge(c, 4),
    "S05": lambda c: judge(c, 5, ct=True),
}
CALLS = "; recorded calls of the real functions (inputs and answers) judged by TLC against the executable specification"
NOTES = {
    "S01": ("TLA+ scanner state machine (Quoting), model-checked with TLC for all short texts and options (termination, stops, round trip of quoting, lists one at a time)" + CALLS,
            "All texts to length 4 (thorough 5) over quotes, backslash, separators and digits with nine option sets, all escapes of one byte, escape texts to length 5, random texts and options; address sanitizer."),
    "S02": ("TLA+ specification of comment stripping on top of the scanner machine (StringsTrace, Quoting, the latter model-checked)" + CALLS,
            "Random texts with markers, quotes, escapes and every kind of blank; all pairs of short texts for the prefix and suffix functions."),
    "S03": ("TLA+ specification of indentation removal (StringsTrace)" + CALLS, "All texts to length 6 (thorough 8) over blank, tab, newline and a letter; random indented texts."),
    "S04": ("TLA+ specification of decimal digits of 64 bit words in limbs and their grouping (StringsTrace)" + CALLS,
            "Powers of two and ten and their neighbours, extremes and random values for 14 integral types, all values of 8 bit types."),
    "S05": ("TLA+ specification of occurrence and last-occurrence splitting (Strings, StringsTrace)" + CALLS,
            "All texts to length 7 (thorough 9) over two letters with all needles to length 3 and all start positions, random texts with NUL and high bytes; compile time evaluation."),
}
