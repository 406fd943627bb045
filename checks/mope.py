"""M*: templates."""
import glob
import files


def srcs(c):
    r = [f[len(c.repo) + 1:] for d in ("mope", "strings", "file", "file/ini") for f in sorted(glob.glob(f"{c.repo}/mbo/{d}/*.cc")) if not f.endswith(("_test.cc", "_benchmark.cc", "_main.cc"))]
    return r + ["mbo/status/status_builder.cc"]


def m01(c):
    exe = c.build("mope", ["mope.cc"], shim=True, asan=True, repo_srcs=srcs(c))
    c.model("MopeMC", "MopeMCDeep" if c.thorough else "MopeMC")
    c.validate("MopeTrace", c.drive(exe, [c.seed, c.tier, c.work]))


def m02(c):
    exe = c.build("mope_tool", ["diff_tool_flags.cc"], shim=True, asan=True, repo_srcs=srcs(c) + ["mbo/mope/mope_main.cc"])
    c.model("MopeToolMC", "MopeToolMCDeep" if c.thorough else "MopeToolMC")
    d, n = files.scratch(c), 8
    r = c.ex.map(lambda i: c.drive("/usr/bin/python3", [c.verif + "/drivers/mope_tool.py", exe, c.seed, c.tier, i, n], name="mope%d" % i, cwd=d, timeout=600), range(n))
    c.validate("MopeToolTrace", [x for y in r for x in y], weight=len)


CHECKS = {"M01": m01, "M02": m02}
NOTES = {
    "M01": ("TLA+ specification of templates (Mope: data, tags, lines taken by tags, plans of sections, recursive expansion), model-checked with TLC as a stack machine against the recursive definition (MopeMC: it ends, agrees, cleans up); recorded histories of edits, copies, INI files and expansions of real templates replayed by TLC (MopeTrace)",
            "All texts of three tokens (thorough four) over two data trees, random texts with nested sections, loops, lists, controls, broken tags, CRLF and references; random edit histories with dictionaries held across further insertions; random INI files; address sanitizer."),
    "M02": ("TLA+ specification of the template program's command line, settings, INI file, output and exit code (MopeTool, over Mope and Ini), model-checked with TLC over command lines built setting by setting (MopeToolMC); recorded runs of the real program, with all files before and after, judged by TLC (MopeToolTrace)",
            "3200 (thorough 16000) random command lines over all flags in all spellings, places and repeats, nested and global settings, INI files, missing files, directories, templates over what is set and other text, output to files old and new and over the template itself; all command lines of three (thorough four) settings over fourteen with three INI files in the model; address sanitizer."),
}
