"""L*: log."""


def l01(c):
    g, a = c.build_many([dict(name="logscope", srcs=["logscope.cc"]), dict(name="logscope_clang", srcs=["logscope.cc"], cxx="clang++", opt="-O2")])
    c.model("LogScopes")
    c.validate("LogScopesTrace", c.drive(g, [c.seed, c.tier]) + c.drive(a, [c.seed + 1, c.tier]), weight=len)


def l02(c):
    kw = dict(srcs=["timing.cc"], repo_srcs=["mbo/log/log_timing.cc"], shim=True)
    g, a = c.build_many([dict(name="timing", asan=True, **kw), dict(name="timing_clang", cxx="clang++", opt="-O2", **kw)])
    c.model("Timing")
    c.validate("TimingTrace", c.drive(g, [c.seed, c.tier]) + c.drive(a, [c.seed + 1, c.tier]), weight=len)


def l03(c):
    kw = dict(srcs=["demangle.cc"], repo_srcs=["mbo/log/demangle.cc"])
    g, a = c.build_many([dict(name="demangle", asan=True, **kw), dict(name="demangle_clang", cxx="clang++", **kw)])
    c.validate("DemangleTrace", c.drive(g, [c.seed, c.tier]) + c.drive(a, [c.seed + 1, c.tier]), weight=len)


CHECKS = {"L01": l01, "L02": l02, "L03": l03}
NOTES = {
    "L01": ("TLA+ state machine of open scopes and sinks (LogScopes) model-checked with TLC; recorded histories of real scoped streams and checks, "
            "in process and in children that quit, replayed on it",
            "Random histories of opening, streaming and ending scopes of every kind in any order, on standard and own sinks, with the change of all "
            "sinks observed after each step; quitting scopes in forked children with exit status and everything they left behind."),
    "L02": ("TLA+ state machine of timing scopes, the clock, flags and log (Timing) model-checked with TLC, with the composition of function names; "
            "recorded histories of real timing scopes under a driven clock replayed on it",
            "Random histories of making, streaming into, moving and ending scopes in any order, from functions of several shapes, with random "
            "minimal durations, severities, start times, flags and clock; every logged severity, place and message; function texts composed from "
            "random types, scopes, operators, template arguments, qualifiers, lambdas and clauses in the forms of both compilers, and about "
            "60 real functions on both compilers. Against a stand-in for abseil (no abseil of the needed version is here)."),
    "L03": ("TLA+ specification of type terms with their mangled and readable names (Mangling); answers of the real function for mangled terms, "
            "compiler made names and texts that are no mangled names judged by TLC",
            "Random terms to depth 4 over built in types, pointers, references, functions, arrays, qualified names, templates and literals; broken names; "
            "texts that cannot be names; from one thread keeping all answers and from four threads at once; address sanitizer."),
}
