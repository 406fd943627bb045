"""G*: what the library offers to tests."""


def g01(c):
    c.model("MatchersMC", "MatchersMCDeep" if c.thorough else "MatchersMC")
    kw = dict(srcs=["matchers.cc"], repo_srcs=["mbo/strings/indent.cc", "mbo/strings/strip.cc", "mbo/strings/parse.cc"], shim=True, libs=["-lgmock", "-lgtest"])
    g, a = c.build_many([dict(name="matchers", asan=True, **kw), dict(name="matchers_clang", cxx="clang++", opt="-O1", **kw)])
    c.validate("MatchersTrace", c.drive(g, [c.seed, c.tier]) + c.drive(a, [c.seed + 1, c.tier]), weight=len)


CHECKS = {"G01": g01}
NOTES = {
    "G01": ("TLA+ model of matchers as terms and of the test macros as a machine (Matchers), model-checked with TLC; verdicts and explanations of real "
            "matchers, and runs of the real macros, judged by it",
            "Random terms to depth 3 over numbers, sequences, texts, statuses and statuses-or-values, composed with not, all and any; each verdict taken "
            "directly, explained, through a copy and negated, after everything the matcher was made from is gone (for WhenTransformedBy in runs of their own: a known finding); random bodies of up to 5 macros. "
            "googletest is the installed one, abseil the stand-in (see DESIGN.md)."),
}
