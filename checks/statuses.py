"""U*: statuses."""


def u01(c):
    c.model("StatusBuildMC", "StatusBuildMCDeep" if c.thorough else "StatusBuildMC")
    c.model("StatusRunMC", "StatusRunMCDeep" if c.thorough else "StatusRunMC")
    kw = dict(srcs=["status.cc"], repo_srcs=["mbo/status/status_builder.cc"], shim=True)
    g, a = c.build_many([dict(name="status", asan=True, **kw), dict(name="status_clang", cxx="clang++", opt="-O2", **kw)])
    c.validate("StatusBuildTrace", c.drive(g, [c.seed, c.tier]) + c.drive(a, [c.seed + 1, c.tier]), weight=len)


CHECKS = {"U01": u01}
NOTES = {
    "U01": ("TLA+ machines of a status builder (StatusBuild) and of a chain of calls passing statuses on with the macros, model-checked with TLC; recorded "
            "histories of real builders, and of real functions calling each other through every macro, replayed on them",
            "Random histories of three builders: made from every kind of status, texts and formatted numbers, prefix and suffix modes, payloads, moves, "
            "repeated conversions; random call trees to depth 5 with 25 ways of using the macros: calls made, order, final status, value and live objects "
            "compared. The abseil used is the stand-in (see DESIGN.md)."),
}
