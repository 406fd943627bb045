"""F*: files, paths, globs and INI files."""
import glob
import os


def srcs(c):
    return ["mbo/status/status_builder.cc"] + [f[len(c.repo) + 1:] for f in sorted(glob.glob(c.repo + "/mbo/file/*.cc")) if not f.endswith(("_test.cc", "_main.cc", "_benchmark.cc"))]


def scratch(c):
    d = os.path.join(c.work, "scratch")
    os.makedirs(d, exist_ok=True)
    return d


def strs(c):
    return [f[len(c.repo) + 1:] for f in sorted(glob.glob(c.repo + "/mbo/strings/*.cc")) if not f.endswith(("_test.cc", "_main.cc", "_benchmark.cc"))]


def f01(c):
    exe = c.build("files", ["files.cc"], shim=True, repo_srcs=srcs(c), opt="-O1")
    c.model("PathsMC")
    c.validate("PathsTrace", c.drive(exe, [1, c.seed, c.tier]))


def f05(c):
    exe = c.build("files", ["files.cc"], shim=True, asan=True, repo_srcs=srcs(c))
    c.model("FileStoreMC")
    c.validate("FilesTrace", c.drive(exe, [5, c.seed, c.tier], cwd=scratch(c)))


def f02(c):
    exe = c.build("glob", ["glob.cc"], shim=True, repo_srcs=srcs(c))
    c.model("GlobsMC")
    c.validate("GlobTrace", c.drive(exe, [0, c.seed, c.tier]), weight=lambda x: 60 + len(x))


def f03(c):
    exe = c.build("walk", ["walk.cc"], shim=True, asan=True, repo_srcs=srcs(c))
    c.model("WalksMC")
    c.validate("WalkTrace", c.drive(exe, [0, c.seed, c.tier], cwd=scratch(c)))


def f04(c):
    exe = c.build("ini", ["ini.cc"], shim=True, asan=True, repo_srcs=["mbo/file/file.cc", "mbo/file/ini/ini_file.cc", "mbo/status/status_builder.cc"])
    c.model("IniMC")
    c.validate("IniTrace", c.drive(exe, [0, c.seed, c.tier], cwd=scratch(c)))


def f06(c):
    exe = c.build("glob_tool", ["diff_tool_flags.cc"], shim=True, asan=True, repo_srcs=srcs(c) + strs(c) + ["mbo/file/glob_main.cc"])
    c.model("GlobToolMC", "GlobToolMCDeep" if c.thorough else "GlobToolMC")
    d, n = scratch(c), 8
    r = c.ex.map(lambda i: c.drive("/usr/bin/python3", [c.verif + "/drivers/glob_tool.py", exe, c.seed, c.tier, i, n], name="glob%d" % i, cwd=d, timeout=600), range(n))
    c.validate("GlobToolTrace", [x for y in r for x in y], weight=len)


CHECKS = {"F01": f01, "F02": f02, "F03": f03, "F04": f04, "F05": f05, "F06": f06}
NOTES = {
    "F01": ("TLA+ specification of lexical paths (Paths), its promises (idempotent, shortest, absoluteness, joining) model-checked with TLC for all short paths; "
            "recorded calls of the real functions judged by TLC against it",
            "All texts to length 6 (thorough 7) over two letters, dot and both separators; all joins of up to three of 19 elements, random joins of up to five; random texts."),
    "F02": ("TLA+ specification of glob semantics (Globs: tokens, elements, matching by definition), its promises (stars stay in a component, literals, ranges, negation) "
            "model-checked with TLC; recorded translations, matches and splits of the real functions judged by TLC against it",
            "All patterns to length 4 (thorough 5) over the special characters and two letters against all short paths; random patterns built from every element with all options; "
            "every split into root and pattern. RE2 itself is replaced by a small regular expression engine of our own, since it is not installed."),
    "F03": ("TLA+ state machine of walking a tree (Walks), promises (wanted entries only, each once, parents first, complete) model-checked with TLC for all small trees; "
            "recorded walks of real directory trees replayed on it",
            "Random trees of up to 14 entries (files, directories, links, dangling links, odd names) times patterns, options, forms of root, and callbacks that stop, fail, do not recurse, "
            "or remove directories on the way; missing roots, links in circles."),
    "F04": ("TLA+ state machine of INI content (Ini: entries, edits, reading of text, expressible content), model-checked with TLC (later assignments win, what can be "
            "expressed survives writing and reading); recorded histories of real INI files replayed on it",
            "All texts to length 5 (thorough 6) over letter, equals, brackets, newline, blank and semicolon; histories of reads, edits with every kind of value, lookups with padded names, "
            "writing to and reading from files; all kinds of line ends; address sanitizer."),
    "F05": ("TLA+ state machine of a file store (FileStore), model-checked with TLC; recorded histories of real files replayed on it",
            "Histories of 30 and more operations on 12 names (files, directories, links, links in circles, names too long, missing directories, unreadable files): "
            "writes from empty to 600 KB with NUL and newline bytes, removal, times before and after the epoch, full and limited media, every read and line limit; address sanitizer."),
    "F06": ("TLA+ specification of the glob program's options, request, listing, lines, table and sums (GlobTool, over Globs), model-checked with TLC on trees that grow entry by entry (GlobToolMC); recorded runs of the real program on real trees judged by TLC (GlobToolTrace)",
            "2400 (thorough 12000) random trees of up to 18 entries (directories, files of many sizes, links to files, directories and nothing, pipes, names with spaces, dots and special characters) with random flags in all spellings, 38 patterns and the entries' own names, 16 regular expressions, roots absolute, relative, above, below a dot directory and current, one or two arguments, bad patterns and missing roots; in the model all trees of two (thorough three) entries over all options. Entries may come in any order; sums in between count just the entries shown before them with --fast, otherwise as many."),
}
