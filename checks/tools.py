"""P01-P05: the Python tools."""
import files


def py(c, name, *a, **kw):
    return c.drive("/usr/bin/python3", ["-B", c.verif + "/drivers/" + name, c.repo, c.seed, c.tier] + list(a), name=name, cwd=files.scratch(c), timeout=600, **kw)


def p01(c):
    c.model("MdTablesMC", workers=8)
    c.validate("MdTrace", py(c, "tools_md.py"), weight=len)


def p02(c):
    c.model("CoverageMC", workers=8)
    c.validate("CoverageTrace", py(c, "tools_coverage.py"), weight=len)


def p03(c):
    c.model("CachesMC", workers=8)
    c.validate("CachesTrace", py(c, "tools_caches.py"), weight=len)


def p04(c):
    c.model("BuildRulesMC", workers=8)
    c.validate("BuildRulesTrace", py(c, "tools_build.py"), weight=len)


def p05(c):
    c.model("CoverageSiteMC", workers=8)
    c.validate("CoverageSiteTrace", py(c, "tools_site.py"))


CHECKS = {"P01": p01, "P02": p02, "P03": p03, "P04": p04, "P05": p05}
NOTES = {
    "P01": ("TLA+ machine reading markdown lines (MdTables: fences, tables, cells) and a relation of aligned documents to their sources; promises (same cells, sides, one set of "
            "column boundaries, aligned documents are stable) model-checked with TLC; real alignments judged by it",
            "All documents to three of 15 lines, 1800 (thorough 20000) random documents of tables (escapes, all alignments, ragged rows, indentation) and other blocks (fences of all kinds); "
            "runs of the program on files with both line ends. Tables indented unequally and blocks that end a table while holding a pipe are left out."),
    "P02": ("TLA+ definition of what a coverage report means under the markers in the sources and of the gate (Coverage: merging of records, excluded lines, branches and functions, merged functions, categories, "
            "minimums, changed lines), promises (records in any order and repeated count once, coverage only grows, the gate fails exactly below a minimum) model-checked with TLC; every number and verdict of real runs judged by it",
            "900 (thorough 8000) random reports, sources and policies, and 300 (2666) against scratch git histories, 450 (4000) groupings. Percentages are the reported ones (two decimals, ties either way); "
            "renamed files and lines that look like diff headers are outside."),
    "P03": ("TLA+ state machine of a growing cache store and its cleanups (Caches), promises model-checked with TLC; real selections judged by it",
            "All listings to length 3 over four keys and three times with six prefixes, 2500 (thorough 20000) random listings to length 40, ties, runs of the program. Times are UTC texts with and without fractions of a second."),
    "P04": ("TLA+ reader of build files by their grammar (BuildRules: tokens, a machine over them) and the lints' definitions; reading gives back what was written in every layout, "
            "model-checked with TLC; what the real reader and lints report judged by it",
            "700 (thorough 6000) random build files in buildifier's layouts (one-line rules, lists of all forms, select, comments everywhere, attribute order), runs of both programs on "
            "30 (150) trees with generated, vendored and foreign directories. Macros and comprehensions are outside, as documented."),
    "P05": ("TLA+ state machine of the published site (CoverageSite: reports of runs offered in any order), promises (whatever the order the newest run's report stays, never a step back; the list's order is total) "
            "model-checked with TLC; histories run by the real tools as the publishing job runs them replayed on it, pages judged by it",
            "250 (thorough 2000) histories of up to 16 reports for up to 12 targets with ties, reruns and reports without metadata, 1000 (8000) heaps, 500 (4000) pages. Times have the one form GitHub gives."),
}
