"""P04: build file reader and lints (argv: repo, seed, tier). Runs in a scratch directory."""
import importlib, json, os, random, re, shutil, subprocess, sys
from pathlib import Path
repo, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
sys.dont_write_bytecode = True
sys.path.insert(0, repo + "/tools")
reader = importlib.import_module("build_rules")
naming = importlib.import_module("check_cc_target_naming")
tested = importlib.import_module("check_cc_library_tested")
rng = random.Random(seed)
C = lambda s: [ord(c) for c in s]


def emit(op, **kw):
    print(json.dumps({"op": op, **kw}, separators=(",", ":")))


LIBS = ["a_cc", "b_cc", "ab_cc", "a", "cc", "_cc", "a_cc_test", "x_ccc", "a_CC", "lib-1.2_cc", "sub/c_cc"]
KINDS = ["cc_library"] * 5 + ["cc_test"] * 4 + ["cc_binary", "py_test", "sh_test", "my_cc_library", "cc_library_x", "cc_test_suite", "filegroup", "test_suite", "cc_fuzz_test"]
PKGS = ["p", "p/q", "", "mbo/types", "x-y"]


def label(pkg):
    n = rng.choice(LIBS)
    return rng.choice([":" + n] * 5 + ["//%s:%s" % (pkg, n)] * 3 + ["//%s:%s" % (rng.choice(PKGS), n), "@abseil-cpp//absl/%s:%s" % (rng.choice(["strings", "status"]), n), "@%s//:%s" % (rng.choice(["x", "gtest"]), n), "//%s/sub:%s" % (pkg, n)])


def comment():
    return rng.choice(["", "", "", "", "", "  # note", '  # ":a_cc"', '  # "//p:b_cc",', "  # it's )", "  # name = \"z\""])


def strings(ls, ind="    "):
    """a list of strings in one of buildifier's forms"""
    if not ls:
        return "[]"
    if len(ls) == 1 and rng.random() < 0.6:
        return '["%s"]' % ls[0]
    out = "[" + rng.choice(["", "", "", "  # list"]) + "\n"
    for s in ls:
        if rng.random() < 0.08:
            out += '%s    # "%s",\n' % (ind, rng.choice(LIBS))
        if rng.random() < 0.06:
            out += '%s    # ":%s",\n' % (ind, rng.choice(LIBS))
        out += '%s    "%s",%s\n' % (ind, s, comment())
    return out + ind + "]"


def deps(pkg):
    ls = list(dict.fromkeys(label(pkg) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))))
    k = rng.random()
    if k < 0.8:
        return strings(ls)
    if k < 0.85:
        return "COMMON_DEPS"
    if k < 0.93:
        return strings(ls) + ' + select({\n        "@platforms//os:linux": ["%s"],\n        "//conditions:default": [],\n    })' % label(pkg)
    return 'select({\n        ":cond": %s,\n        "//conditions:default": %s,\n    })' % (strings([label(pkg)], "        "), strings(ls, "        "))


def attrs(pkg):
    out = []
    if rng.random() < 0.8:
        out.append("deps = " + deps(pkg))
    pool = ['srcs = ["%s.cc"]' % rng.choice("abc"), 'hdrs = ' + strings([x + ".h" for x in rng.sample("abcd", rng.randrange(1, 4))]), "data = " + strings([label(pkg) for _ in range(rng.randrange(1, 3))]),
            'visibility = ["//visibility:public"]', 'tags = ["manual"]', 'size = "small"', "testonly = True", 'copts = ["-DX=\\":a_cc\\""]', "implementation_deps = " + strings([label(pkg)]),
            'cmd = "echo # $(location :a_cc) \\"x\\""', "args = " + strings(["--x=(", ":a_cc"]), 'features = select({\n        "//conditions:default": [":b_cc"],\n    })', "flaky = False", "env = {\n        \"A\": \":a_cc\",\n    }"]
    out += rng.sample(pool, rng.randrange(4))
    rng.shuffle(out)
    return out


def rule(pkg):
    kind = rng.choice(KINDS)
    name = rng.choice(LIBS) if "test" not in kind or rng.random() < 0.2 else rng.choice(["a_test", "b_test", "t_test"])
    k = rng.random()
    if k < 0.06:
        return '%s(name = "%s")' % (kind, name)
    a = attrs(pkg)
    n = 'name = "%s"' % name
    a.insert(0 if rng.random() < 0.85 else rng.randrange(len(a) + 1), n)
    body = ""
    for x in a:
        if rng.random() < 0.05:
            body += "    # comment (\n"
        body += "    " + x + "," + comment() + "\n"
    return "%s(%s\n%s)" % (kind, rng.choice(["", "", "", "  # open"]), body)


def other():
    return rng.choice(['load("@rules_cc//cc:cc_library.bzl", "cc_library")', "package(default_visibility = [\"//visibility:private\"])", "# cc_library(\n#     name = \"old\",\n# )", 'load(\n    "//x:y.bzl",\n    "cc_test",\n)',
                       'COMMON_DEPS = [\n    ":a_cc",\n]', 'exports_files(["a.h"])', "licenses([\"notice\"])", '[\n    cc_test(\n        name = "gen_" + x,\n        deps = [":a_cc"],\n    )\n    for x in XS\n]', '"""Doc of the file."""', "package()", "macro()"])


def text(pkg, n):
    parts = []
    for _ in range(n):
        parts.append(rule(pkg) if rng.random() < 0.75 else other())
    return rng.choice(["", "\n", "# Copyright\n\n"]) + rng.choice(["\n\n", "\n\n", "\n"]).join(parts) + rng.choice(["\n", "\n", ""])


def pairs(ps):
    return [{"line": p[0], "name": C(p[1])} for p in ps]


for _ in range(6000 if tier == "thorough" else 700):
    pkg = rng.choice(PKGS)
    t = text(pkg, rng.randrange(0, 7))
    rs = reader.parse_rules(t)
    emit("read", text=C(t), pkg=C(pkg), rules=[{"kind": C(r.kind), "name": C(r.name), "line": r.line, "deps": [C(d) for d in r.deps]} for r in rs],
         misnamed=pairs(naming.violations(Path("BUILD"), t)), untested=pairs(tested.untested_libraries(t, pkg)))

DIRS = [".", "p", "p/q", "external/x", "p/external", "third_party", "bazel-out/p", "p/bazel-x", "bazelx", "externals", ".github", ".git", "mbo/third_party/y", "x-y", "third_party2", "mbo/external-x", "p/.gitx", "bazel", "bazel-"]
TOOL = {"naming": "check_cc_target_naming.py", "tested": "check_cc_library_tested.py"}
LINE = re.compile(r"^  (.*?):(\d+): .*?'([^']*)'")


def problems(p, names):
    got = []
    for x in p.stderr.decode().split("\n"):
        m = LINE.match(x)
        if m:
            got.append({"file": names.get(m.group(1), 0), "line": int(m.group(2)), "name": C(m.group(3))})
        elif x.startswith("  "):
            got.append({"file": 0, "line": 0, "name": []})
    return got


for i in range(150 if tier == "thorough" else 30):
    shutil.rmtree("tree", ignore_errors=True)
    files, names = [], {}
    for d in rng.sample(DIRS, rng.randrange(1, 9)):
        for f in rng.sample(["BUILD", "BUILD.bazel", "BUILD.txt", "build.bazel"], rng.choice([1, 1, 2])):
            if f == "BUILD" and "BUILD.bazel" in [x["f"] for x in files if x["d"] == d] or f == "BUILD.bazel" and "BUILD" in [x["f"] for x in files if x["d"] == d]:
                continue
            os.makedirs("tree/" + d, exist_ok=True)
            pkg = "" if d == "." else d
            t = text(pkg, rng.randrange(0, 4))
            if rng.random() < 0.7:
                t += 'cc_library(name = "odd")\n'
            open("tree/%s/%s" % (d, f), "w").write(t)
            files.append({"d": d, "f": f, "text": t, "pkg": pkg})
            names[(d + "/" if d != "." else "") + f] = len(files)
    fs = [{"parts": [C(x) for x in f["d"].split("/") if x != "."], "name": C(f["f"]), "text": C(f["text"]), "pkg": C(f["pkg"])} for f in files]
    for lint, tool in TOOL.items():
        p = subprocess.run([sys.executable, "-B", repo + "/tools/" + tool], cwd="tree", capture_output=True)
        emit("tree", lint=lint, files=fs, got=problems(p, names), code=p.returncode)
        # named files: every one of them, as pre-commit does
        some = [n for n in names if n.split("/")[-1] in ("BUILD", "BUILD.bazel")]
        if some:
            some = rng.sample(some, rng.randrange(1, len(some) + 1))
            p = subprocess.run([sys.executable, "-B", repo + "/tools/" + tool] + some, cwd="tree", capture_output=True)
            emit("tree", lint=lint, files=[dict(fs[names[n] - 1], parts=[]) for n in some], got=problems(p, {n: k + 1 for k, n in enumerate(some)}), code=p.returncode)
        p = subprocess.run([sys.executable, "-B", repo + "/tools/" + tool, "nosuch/BUILD"], cwd="tree", capture_output=True)
        emit("gone", code=p.returncode, told=b"nosuch" in p.stderr)
shutil.rmtree("tree", ignore_errors=True)
