"""X*: diffs and the diff program."""
import glob
import files


def srcs(c):
    r = [f[len(c.repo) + 1:] for d in ("diff", "diff/impl", "diff/internal", "strings") for f in sorted(glob.glob(f"{c.repo}/mbo/{d}/*.cc")) if not f.endswith(("_test.cc", "_benchmark.cc", "_main.cc"))]
    return [f for f in r if "update_absl_log_flags" not in f] + ["mbo/status/status_builder.cc", "mbo/file/artefact.cc", "mbo/file/file.cc"]


def judge(c, n, model):
    exe = c.build("diff", ["diff.cc"], shim=True, asan=True, repo_srcs=srcs(c))
    if model:
        c.model(model)
    c.validate("DiffsTrace", c.drive(exe, [n, c.seed, c.tier]), weight=len)


def x04(c):
    exe = c.build("diff_tool", ["diff_tool_flags.cc"], shim=True, asan=True, repo_srcs=srcs(c) + ["mbo/diff/diff_main.cc", "mbo/diff/internal/update_absl_log_flags.cc"])
    c.model("DiffToolMC", "DiffToolMCDeep" if c.thorough else "DiffToolMC")
    d, n = files.scratch(c), 8
    r = c.ex.map(lambda i: c.drive("/usr/bin/python3", [c.verif + "/drivers/diff_tool.py", exe, c.seed, c.tier, i, n], name="tool%d" % i, cwd=d, timeout=600), range(n))
    c.validate("DiffToolTrace", [x for y in r for x in y], weight=len)


CHECKS = {
    "X01": lambda c: judge(c, 1, "DiffsMC"),
    "X02": lambda c: judge(c, 2, "DiffsMC"),
    "X03": lambda c: judge(c, 3, None),
    "X04": x04,
}
SPEC = "TLA+ specification of edit scripts, hunks, patching, least cost and the four output formats (Diffs)"
MC = ", model-checked with TLC as a machine that walks two texts by every possible script (DiffsMC: hunks, patching, cost and formats agree)"
TR = "; recorded diffs of the real algorithms (bytes and the hunks in them) judged by TLC (DiffsTrace)"
NOTES = {
    "X01": (SPEC + MC + TR, "All pairs of texts to three lines (thorough four) over two letters with and without final newline, all algorithms, formats and small context sizes; random texts to 60 lines with lines that look like diff syntax, binary bytes, all context sizes and widths; file header lines; address sanitizer."),
    "X02": (SPEC + MC + TR, "Cost against the least cost computed in the specification: all pairs to four lines (thorough five), random pairs to 350 lines of eight shapes with and without the minimal option."),
    "X03": (SPEC + " with normalization of lines by options" + TR, "Random option combinations (spaces, case, comments by mark and by parsing, replacements per side, matching lines and chunks, blank lines, final newline, left deletions) over lines made to differ only in what the options ignore."),
    "X04": ("TLA+ specification of the diff program's command line, clock, exit codes and what it reads (DiffTool), model-checked with TLC over command lines built flag by flag (DiffToolMC); recorded runs of the real program judged by TLC (DiffToolTrace), the diffs themselves by the specification of X01 to X03",
            "1600 (thorough 8000) random command lines over all 21 flags in all spellings, places and repeats, files of 0 to 25 lines made to differ in what options ignore, missing files, directories, wrong numbers of files, file times through leap years; all command lines of three (thorough four) flags over a small vocabulary in the model; address sanitizer."),
}
