"""P02: the coverage gate and the grouping of its report (argv: repo, seed, tier)."""
import contextlib, importlib.util, io, json, os, random, re, shutil, subprocess, sys
repo, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
sys.dont_write_bytecode = True
sys.path.insert(0, repo)


def load(name):
    spec = importlib.util.spec_from_file_location(name, repo + "/tools/" + name + ".py")
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    spec.loader.exec_module(mod)
    return mod


cov, group = load("coverage"), load("coverage_sources")
rng = random.Random(seed)
C = lambda s: [ord(c) for c in s]
TOP = os.getcwd()
METRICS = ("lines", "functions", "branches")
ENV = {**os.environ, "GIT_CONFIG_GLOBAL": "/dev/null", "GIT_CONFIG_SYSTEM": "/dev/null", "GIT_AUTHOR_NAME": "a", "GIT_AUTHOR_EMAIL": "a@b", "GIT_COMMITTER_NAME": "a", "GIT_COMMITTER_EMAIL": "a@b"}
os.environ.update(ENV)


def emit(op, **kw):
    print(json.dumps({"op": op, **kw}, separators=(",", ":")))


def h(x):
    return -1 if x is None else round(x * 100)


NAMES = ["mbo/a/a.cc", "mbo/a/a.h", "mbo/b/b.cc", "mbo/b/x_test.cc", "mbo/c.h", "mbo/b/sub/d.cc", "mbo/a/b.cc"]
PATTERNS = ["mbo/**", "mbo/*", "*", "mbo/a/*", "mbo/a/**", "mbo/b/**", "**/*_test.cc", "*.cc", "*.h", "mbo/?/*", "mbo/c.h", "mbo/b/*.cc", "mbo/?.h", "mbo/b", "x*", "mbo/a/a.?", "MBO/*"]
FN = ["_Za", "_Zb", "f", "f(int, int)", "g<1,2>", "h(3, x)", "9"]


def pats(n):
    return rng.sample(PATTERNS, n)


def minimum(some=0.7):
    return {m: rng.choice([0, 5000, 3333, 6667, 10000, 9000, 1250, 3750, 6250, 8571, 1429, 2857]) for m in METRICS if rng.random() < some}


def policy():
    p = {"include": rng.choice([["mbo/**"], ["mbo/**"], pats(1), pats(2)]), "exclude": rng.choice([[], ["**/*_test.cc"], pats(1), pats(1)]),
         "minimum": minimum() if rng.random() < 0.9 else {}, "patch": minimum(0.85), "categories": []}
    p["patch"].pop("functions", None)
    for i in range(rng.choice((0, 1, 2, 3))):
        p["categories"].append({"name": rng.choice(["a", "b", "Zed", "x y", "1"]) + str(i), "include": pats(rng.choice((1, 1, 2))), "minimum": minimum(0.4)})
    return p


def policy_json(p):
    hd = lambda m: {k: v / 100 for k, v in m.items()}
    out = {"schema": 1}
    if p["include"] != ["mbo/**"] or rng.random() < 0.5:
        out["include"] = p["include"]
    if p["exclude"] or rng.random() < 0.5:
        out["exclude"] = p["exclude"]
    if p["minimum"] or rng.random() < 0.5:
        out["minimum"] = hd(p["minimum"])
    if p["patch"] or rng.random() < 0.5:
        out["patch_minimum"] = hd(p["patch"])
    if p["categories"] or rng.random() < 0.5:
        out["categories"] = {c["name"]: {"include": c["include"], **({"minimum": hd(c["minimum"])} if c["minimum"] or rng.random() < 0.3 else {})} for c in p["categories"]}
    return out


def policy_rec(p):
    return {"include": [C(x) for x in p["include"]], "exclude": [C(x) for x in p["exclude"]], "minimum": p["minimum"], "patch": p["patch"],
            "categories": [{"include": [C(x) for x in c["include"]], "minimum": c["minimum"]} for c in p["categories"]]}


COUNT = [0]


def source_line():
    COUNT[0] += 1
    t = "x%d" % COUNT[0] + rng.choice([";", ";", ";", " {", "}", " if (a) {", "("])
    k = rng.random()
    if k < 0.35:
        t += "  // " + rng.choice(["LCOV_EXCL_LINE", "LCOV_EXCL_BR_LINE", "LCOV_EXCL_FUNC_LINE", "LCOV_MERGE_FUNC_LINE", "LCOV_EXCL_BR_LINE: r", "LCOV_EXCL_LINES", "LCOV_EXCL", "lcov_excl_line", "LCOV_EXCL_FUNC_LINE LCOV_EXCL_LINE", "LCOV_MERGE_FUNC_LINE(x)",
                                   "LCOV_MERGE_FUNC_LINE"])
    return t


def source(n):
    return [source_line() for _ in range(n)]


def src_rec(lines):
    return [{"line": "LCOV_EXCL_LINE" in t, "br": "LCOV_EXCL_BR_LINE" in t, "fn": "LCOV_EXCL_FUNC_LINE" in t, "merge": "LCOV_MERGE_FUNC_LINE" in t, "brace": "{" in t} for t in lines]


def report(names, n):
    recs, text = [], []
    for _ in range(rng.choice((1, 2, 2, 3, 4, 5))):
        name = rng.choice(names) if rng.random() < 0.93 else None
        r = {"file": C(name) if name else [], "da": [], "fn": [], "fnda": [], "brda": []}
        text.append(rng.choice(["TN:\n", "", ""]) + "SF:" + ((rng.choice(["", "", "", "/proc/self/cwd/", "/x/mbo2/y/", "C:\\w\\"]) + name) if name else rng.choice(["external/x/y.cc", "/usr/include/x.h", "a.cc", "mbox/a.cc"])) + "\n")
        if name and text[-1].startswith("SF:C:"):
            text[-1] = text[-1].replace("/", "\\")
        body = []
        names_here = rng.sample(FN, rng.choice((0, 0, 1, 2, 4)))
        for f in names_here:
            if rng.random() < 0.9:
                ln = rng.randrange(1, n + 2)
                r["fn"].append([ln, f])
                body.append("FN:%d,%s%s\n" % (ln, "" if f[0].isdigit() or rng.random() < 0.6 else "%d," % (ln + 1), f))
        for f in names_here:
            for _ in range(rng.choice((1, 1, 1, 2, 0))):
                hits = rng.choice((0, 0, 1, 7))
                r["fnda"].append([hits, f])
                body.append("FNDA:%d,%s\n" % (hits, f))
        for ln in rng.sample(range(1, n + 2), rng.randrange(0, n + 1)):
            for _ in range(rng.choice((1, 1, 1, 2))):
                hits = rng.choice((0, 0, 1, 3))
                r["da"].append([ln, hits])
                body.append("DA:%d,%d%s\n" % (ln, hits, rng.choice(("", ",abc"))))
        for ln in rng.sample(range(1, n + 2), rng.choice((0, 1, 1, min(n, 4)))):
            for k in range(rng.choice((1, 2, 3))):
                taken = rng.choice(("-", "0", "1", "4"))
                blk = rng.choice((0, 0, 1))
                r["brda"].append([ln, blk, k, 0 if taken == "-" else int(taken)])
                body.append("BRDA:%d,%d,%d,%s\n" % (ln, blk, k, taken))
        if rng.random() < 0.5:
            body.append(rng.choice(["LF:3\nLH:1\n", "FNF:1\nFNH:0\n", "BRF:0\nBRH:0\n"]))
        recs.append(r)
        text.append("".join(body) + "end_of_record\n")
    return recs, "".join(text)


def git(*a):
    subprocess.run(["git", *a], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def write(name, lines):
    os.makedirs(os.path.dirname(name) or ".", exist_ok=True)
    with open(name, "w") as f:
        f.write("".join(t + "\n" for t in lines))


def run(argv, real):
    if real:
        p = subprocess.run([sys.executable, "-B", repo + "/tools/coverage.py", *argv], capture_output=True, text=True)
        return p.returncode, p.stdout, p.stderr
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            code = int(cov.main(argv))
        except SystemExit as e:
            code = 90
        except Exception as e:
            code = 91
            err.write("%r" % e)
    return code, out.getvalue(), err.getvalue()


def cells(text):
    rows, tables = [], []
    for line in text.splitlines():
        if line.startswith("|"):
            rows.append([x.strip() for x in line.strip()[1:-1].split("|")])
        elif rows:
            tables.append(rows)
            rows = []
    if rows:
        tables.append(rows)
    return [t[2:] for t in tables]


def shown(row, name, m):
    want = [name]
    for k in METRICS:
        want += ["n/a" if m[k]["percent"] is None else "%.2f%%" % m[k]["percent"], str(m[k]["covered"]), str(m[k]["total"])]
    return [row[0]] + row[2:] == want


def metric(m):
    return {k: {"covered": m[k]["covered"], "total": m[k]["total"], "percent": h(m[k]["percent"])} for k in METRICS}


def gate(i, patched):
    d = TOP + "/cov%d" % i
    os.makedirs(d)
    os.chdir(d)
    n = rng.choice((1, 2, 3, 4, 6, 9))
    names = rng.sample(NAMES, rng.choice((1, 1, 2, 3, 4)))
    p = policy()
    src = {f: source(n) for f in names if rng.random() < 0.9}
    changed = []
    if patched:
        p["include"], p["exclude"] = rng.choice([(["mbo/**"], []), (p["include"], p["exclude"])])
        git("init", "-q", "-b", "main")
        write("x", ["x"])
        old = {}
        for f in src:
            if rng.random() < 0.75:
                o = list(src[f])
                for _ in range(rng.choice((0, 1, 1, 2, 3))):
                    k = rng.randrange(len(o) + 1)
                    what = rng.randrange(3)
                    if what == 0 or k == len(o):
                        o.insert(k, source_line())
                    elif what == 1:
                        del o[k]
                    else:
                        o[k] = source_line()
                old[f] = o
                write(f, o)
        gone = rng.choice([x for x in NAMES if x not in names])
        if rng.random() < 0.4:
            write(gone, source(2))
        git("add", "-A")
        git("commit", "-q", "-m", "old")
        git("branch", "base")
        if os.path.exists(gone):
            os.remove(gone)
        for f in src:
            write(f, src[f])
        git("add", "-A")
        git("commit", "-q", "-m", "new", "--allow-empty")
        if rng.random() < 0.3:
            # the base moved on: only what this side changed counts
            git("checkout", "-q", "base")
            for f in list(old)[:1]:
                write(f, source(3))
            git("add", "-A")
            git("commit", "-q", "-m", "other", "--allow-empty")
            git("checkout", "-q", "main")
        for f in src:
            had = set(old.get(f, []))
            changed.append({"file": C(f), "lines": [k + 1 for k, t in enumerate(src[f]) if t not in had]})
    else:
        for f in src:
            write(f, src[f])
    recs, text = report(names, n)
    open("r.lcov", "w").write(text)
    open("p.json", "w").write(json.dumps(policy_json(p)))
    argv = ["--lcov", "r.lcov", "--policy", "p.json", "--json-summary", "s.json", "--summary", "s.md"]
    if patched:
        argv += ["--base-ref", "base"]
    if rng.random() < 0.1:
        argv += ["--baseline", "b.json", "--write-baseline"]
    code, out, err = run(argv, i % 25 == 0)
    ev = {"report": recs, "sources": [{"name": C(f), "src": src_rec(src[f])} for f in src], "policy": policy_rec(p), "rows": [], "failed": [], "agree": True, "patched": patched, "changed": changed,
          "haspatch": False, "patch": {k: {"covered": 0, "total": 0, "percent": -1} for k in METRICS}, "patchfailed": [], "uncovered": [], "code": code}
    names = ["overall"] + [c["name"] for c in p["categories"]]
    try:
        if os.path.exists("s.json"):
            s = json.load(open("s.json"))
            t = cells(out)
            for k, name in enumerate(s["measurements"]):
                m = s["measurements"][name]
                ev["rows"].append({**metric(m), "status": t[0][k][1], "shown": name == names[k] and shown(t[0][k], name, m)})
            ev["agree"] = open("s.md").read() == out
            if "--write-baseline" in argv:
                ev["agree"] = ev["agree"] and json.load(open("b.json"))["measurements"] == s["measurements"]
            ev["agree"] = ev["agree"] and len(t[0]) == len(names)
            if "patch" in s:
                ev["haspatch"] = True
                ev["patch"] = metric(s["patch"])
                ev["agree"] = ev["agree"] and len(t) == 2 and shown(t[1][0], "patch", s["patch"])
            else:
                ev["agree"] = ev["agree"] and len(t) == 1
            page = s["minimums"], s["targets"]
            want = {k: v / 100 for k, v in p["minimum"].items()}
            ev["agree"] = ev["agree"] and page == ({"overall": want, **{c["name"]: {**want, **{k: v / 100 for k, v in c["minimum"].items()}} for c in p["categories"]}}, {x: want for x in names})
        for line in err.splitlines():
            m = re.fullmatch(r"coverage threshold failed: (.*) (lines|functions|branches): .*", line)
            if m and m.group(1) == "patch" and "patch" not in names:
                ev["patchfailed"].append(m.group(2))
            elif m:
                ev["failed"].append({"row": names.index(m.group(1)) + 1, "metric": m.group(2)})
            m = re.fullmatch(r"uncovered patch (line|branch): (.*):(\d+)", line)
            if m:
                ev["uncovered"].append({"metric": m.group(1) + ("s" if m.group(1) == "line" else "es"), "file": C(m.group(2)), "line": int(m.group(3))})
    except (KeyError, IndexError, ValueError, TypeError) as e:
        ev["agree"] = False
    os.chdir(TOP)
    emit("gate", **ev)
    shutil.rmtree(d)


def grouping(i):
    d = TOP + "/grp%d" % i
    ws = d + "/ws"
    os.makedirs(ws)
    p = policy()
    if rng.random() < 0.6:
        p["include"], p["exclude"] = ["mbo/**"], rng.choice([[], ["**/*_test.cc"]])
        p["categories"] = [{"name": "A", "include": ["mbo/a/**"], "minimum": {}}, {"name": "B", "include": ["mbo/b/**"], "minimum": {}}, {"name": "C c", "include": ["mbo/?.h"], "minimum": {}}][:rng.choice((2, 3, 3, 3))]
    recs, text = [], ""
    for _ in range(rng.choice((1, 2, 3, 5))):
        f = rng.choice(NAMES) if rng.random() < 0.95 else "external/z.cc"
        if rng.random() < 0.8:
            write(ws + "/" + f, ["x"])
        tail = "".join("%s:%d\n" % (k, rng.choice((0, 0, 1, 10))) for k in rng.sample(["LF", "LH", "FNF", "FNH", "BRF", "BRH"], rng.randrange(0, 5)))
        body = rng.choice(["", "TN:\n"]) + "SF:" + (ws + "/" if rng.random() < 0.3 else "") + f + "\n" + rng.choice(["", "DA:1,1\n", "FN:1,SF:x\n"]) + tail
        data = re.search(r"^(LF|FNF|BRF):[1-9]", tail, re.M) is not None
        recs.append({"file": f, "data": data, "text": body})
        text += body + "end_of_record\n"
    root = d + "/out"
    os.makedirs(root)
    pj = policy_json(p)
    pj.setdefault("categories", {})
    refused, got, out = False, [], ""
    if i % 25 == 0:
        open(d + "/i", "w").write(text)
        open(d + "/p", "w").write(json.dumps(pj))
        x = subprocess.run([sys.executable, "-B", repo + "/tools/coverage_sources.py", d + "/i", d + "/o", "--policy", d + "/p", "--source-root", root], cwd=ws, capture_output=True)
        refused = x.returncode != 0
        out = "" if refused else open(d + "/o").read()
    else:
        try:
            from pathlib import Path
            out = group.grouped(text, pj, Path(root), Path(ws))
        except ValueError:
            refused = True
    used = 0
    for part in out.split("end_of_record\n")[:-1]:
        m = re.search(r"(?m)^SF:(.*)$", part)
        g = {"record": 0, "category": 0, "links": False, "same": False}
        if m:
            rel = os.path.relpath(m.group(1), root)
            for k, c in enumerate(p["categories"]):
                if rel.startswith(c["name"] + "/"):
                    f = rel[len(c["name"]) + 1:]
                    for j in range(used, len(recs)):
                        orig = re.search(r"(?m)^SF:(.*)$", recs[j]["text"]).group(1)
                        if recs[j]["file"] == f and recs[j]["text"].replace("SF:" + orig, "SF:" + m.group(1), 1) == part:
                            g = {"record": j + 1, "category": k + 1, "same": True, "links": os.path.islink(m.group(1)) and os.path.realpath(m.group(1)) == os.path.realpath(ws + "/" + f)}
                            # records without data look alike: take the first one that has any
                            if recs[j]["data"]:
                                used = j + 1
                                break
        got.append(g)
    emit("group", records=[{"file": C(r["file"]), "data": r["data"]} for r in recs], policy=policy_rec(p), refused=refused, got=got)
    shutil.rmtree(d)


N = 8000 if tier == "thorough" else 900
for i in range(N):
    gate(i, False)
for i in range(N // 3):
    gate(N + i, True)
for i in range(N // 2):
    grouping(i)
