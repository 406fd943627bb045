"""P05: the coverage site (argv: repo, seed, tier)."""
import contextlib, html, html.parser, importlib.util, io, json, os, random, re, shutil, subprocess, sys
from pathlib import Path
repo, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
sys.dont_write_bytecode = True
TOOL = repo + "/tools/coverage_index.py"
spec = importlib.util.spec_from_file_location("coverage_index", TOOL)
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)
rng = random.Random(seed)
C = lambda s: [ord(c) for c in s]
TOP = os.getcwd()
METRICS = ("lines", "functions", "branches")


def emit(op, **kw):
    print(json.dumps({"op": op, **kw}, separators=(",", ":")))


def run(*argv, real=False):
    if real:
        return subprocess.run([sys.executable, "-B", TOOL, *argv], capture_output=True).returncode
    old, sys.argv = sys.argv, [TOOL, *argv]
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            return int(mod.main())
    except SystemExit as e:
        return 90
    except Exception:
        return 91
    finally:
        sys.argv = old


class Tables(html.parser.HTMLParser):
    def __init__(self):
        super().__init__()
        self.tables, self.cell, self.links = [], None, []

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if tag == "table":
            self.tables.append([])
        elif tag == "tr" and self.tables:
            self.tables[-1].append({"fail": a.get("class") == "fail", "head": False, "cells": []})
        elif tag in ("td", "th") and self.tables and self.tables[-1]:
            self.cell = {"text": "", "href": ""}
            self.tables[-1][-1]["cells"].append(self.cell)
            self.tables[-1][-1]["head"] |= tag == "th"
        elif tag == "a":
            self.links.append(a.get("href"))
            if self.cell is not None:
                self.cell["href"] = a.get("href") or ""

    def handle_endtag(self, tag):
        if tag in ("td", "th"):
            self.cell = None

    def handle_data(self, data):
        if self.cell is not None:
            self.cell["text"] += data


def tables(text):
    p = Tables()
    p.feed(text)
    return [[r for r in t if not r["head"]] for t in p.tables], p.links


def ident(target):
    if target == "main":
        return ["main"]
    k, v = target.split("/", 1)
    try:
        return [k] + [int(x) for x in v.split(".")]
    except ValueError:
        return ["other", 0]


def percent():
    t = rng.choice((0, 1, 3, 7, 10, 250))
    c = rng.randrange(t + 1)
    return {"covered": c, "total": t, "percent": round(100.0 * c / t, 2) if t else None}


def limits(some):
    return {m: rng.choice((0, 33.33, 50, 50.0, 66.67, 90, 100, 100.0)) for m in METRICS if rng.random() < some}


def summary(rows):
    target = limits(rng.choice((1, 0.6)))
    s = {"schema": 1, "measurements": {}, "minimums": {}, "targets": {}}
    for r in rows:
        s["measurements"][r] = {m: percent() for m in METRICS}
        s["targets"][r] = target
        s["minimums"][r] = {**target, **(limits(0.5) if r != "overall" else {})}
    if rng.random() < 0.4:
        s["patch"] = {m: percent() for m in METRICS}
    return s


hund = lambda x: -1 if x is None else round(100 * x)
show = lambda v: "n/a" if v["percent"] is None else "%.2f%%" % v["percent"]
TARGETS = ["main", "pr/1", "pr/9", "pr/10", "pr/42", "pr/100", "tag/0.2.0", "tag/0.10.0", "tag/0.9.12", "tag/1.0.0", "tag/10.0.0", "tag/0.10.2"]


def stamp(year=None):
    t = [year or rng.choice((2024, 2025, 2026)), rng.choice((1, 2, 3, 12)), rng.choice((1, 2, 28, 9, 10)), rng.choice((0, 9, 10, 23)), rng.choice((0, 59, 30)), rng.choice((0, 7, 59)), 0]
    return t


def text(t, off=False):
    s = "%04d-%02d-%02dT%02d:%02d:%02d" % tuple(t[:6])
    if t[6] or (off and rng.random() < 0.3):
        return s + "%s%02d:%02d" % ("-" if t[6] < 0 else "+", abs(t[6]) // 60, abs(t[6]) % 60)
    return s + "Z"


def history(i):
    d = TOP + "/site%d" % i
    site = Path(d) / "site"
    site.mkdir(parents=True)
    emit("reset")
    targets = rng.sample(TARGETS, rng.choice((0, 1, 2, 5, len(TARGETS))))
    stamps = [stamp(2026) for _ in range(3)]
    for k in range(rng.choice((0, 1, 3, 8, 16)) if targets else 0):
        t = rng.choice(targets)
        legacy = rng.random() < 0.1
        created = [1970, 1, 1, 0, 0, 0, 0] if legacy else rng.choice(stamps)
        completed = [1970, 1, 1, 0, 0, 0, 0] if legacy else stamp()
        if not legacy:
            completed[6] = rng.choice((0, 0, 0, 120, -330, 60, -60))
        number, attempt, sha = (0, 0, "legacy") if legacy else (rng.choice((9, 10, 11, 100, 1 << 30)), rng.choice((1, 1, 2, 3, 10)), "%040x" % rng.getrandbits(160))
        s = summary(["overall", "a"])
        new = Path(d) / ("n%d" % k)
        new.mkdir()
        (new / "s.json").write_text(json.dumps(s))
        code = run("metadata", str(new / "s.json"), t, str(new / "coverage-meta.json"), "--completed-at", text(completed), "--created-at", text(created), "--head-sha", sha, "--run-attempt", str(attempt),
                   "--run-id", str(number), "--started-at", text(stamp()), real=i % 40 == 0)
        cur = site / t / "coverage-meta.json"
        takes = True
        if cur.exists():
            r = run("newer", str(new / "coverage-meta.json"), str(cur), real=i % 40 == 0)
            takes = r == 0
            code = code or (0 if r in (0, 1) else r)
        if takes and code == 0:
            (site / t).mkdir(parents=True, exist_ok=True)
            shutil.copy(new / "coverage-meta.json", cur)
        emit("publish", target=ident(t), created=C(text(created)), run=number, attempt=attempt, sha=C(sha), completed=completed, percent=[C(show(s["measurements"]["overall"][m])) for m in METRICS], takes=takes, code=code)
        if k % 4 == 3:
            overview(d, site, i)
    if targets and rng.random() < 0.5:
        # what does not belong to the site
        (site / "other").mkdir()
        (site / "index.html").write_text("x")
        (site / "pr" / "7").mkdir(parents=True, exist_ok=True)
    overview(d, site, i)
    shutil.rmtree(d)


def overview(d, site, i):
    out = d + "/index.html"
    code = run("site", str(site), out, real=i % 40 == 0)
    t = open(out).read() if code == 0 else ""
    ts, _ = tables(t)
    rows = []
    for r in (ts[0] if ts else []):
        c = r["cells"]
        if len(c) != 8:
            rows.append({"target": ["other", 0]})
            continue
        tgt = c[0]["href"].rstrip("/")
        what = {"main": ("main", "main branch", "https://github.com/helly25/mbo/tree/main")}.get(tgt)
        if tgt.startswith("tag/"):
            what = ("release " + tgt[4:], "release v" + tgt[4:], "https://github.com/helly25/mbo/releases/tag/v" + tgt[4:])
        if tgt.startswith("pr/"):
            what = ("PR " + tgt[3:], "PR #" + tgt[3:], "https://github.com/helly25/mbo/pull/" + tgt[3:])
        m = re.fullmatch(r"(\d{4})-(\d\d)-(\d\d) (\d\d):(\d\d):(\d\d) UTC", c[2]["text"])
        h = re.fullmatch(r"https://github.com/helly25/mbo/commit/(.*)", c[3]["href"])
        u = re.fullmatch(r"https://github.com/helly25/mbo/actions/runs/(\d+)", c[4]["href"])
        a = re.fullmatch(r"run (\d+)(?: \(attempt (\d+)\))?", c[4]["text"])
        links = what == (c[0]["text"], c[1]["text"], c[1]["href"]) and c[0]["href"] == tgt + "/"
        if h:
            links = links and c[3]["text"] == h.group(1)[:7] and u is not None and a is not None and a.group(1) == u.group(1)
        else:
            links = links and [c[k]["text"] for k in (2, 3, 4)] == ["n/a"] * 3 and u is None
        rows.append({"target": ident(tgt), "links": links, "time": [int(x) for x in m.groups()] + [0] if m else [], "sha": C(h.group(1)) if h else [], "run": int(u.group(1)) if u else 0,
                     "attempt": int(a.group(2) or 1) if a else 0, "percent": [C(c[k]["text"]) for k in (5, 6, 7)]})
    emit("site", rows=rows, code=code, empty="No coverage reports are available" in t)


def latest():
    vals = []
    stamps = [stamp() for _ in range(3)]
    for _ in range(rng.randrange(0, 7)):
        vals.append({"target": rng.choice(TARGETS[:3]), "source": {"created_at": text(rng.choice(stamps)), "run_id": rng.choice((9, 10)), "run_attempt": rng.choice((1, 2, 10))}})
    rec = lambda v: {"target": ident(v["target"]), "created": C(v["source"]["created_at"]), "run": v["source"]["run_id"], "attempt": v["source"]["run_attempt"]}
    got = mod.latest_metadata(list(vals))
    ok = all(k == v["target"] for k, v in got.items())
    emit("latest", values=[rec(v) for v in vals], got=[rec(v) if ok else {"target": ["bad"], "created": [], "run": 0, "attempt": 0} for v in got.values()])


def page(i):
    d = TOP + "/page%d" % i
    os.makedirs(d)
    s = summary(["overall"] + rng.sample(["a", "b & c", "<x>", "\"q\"", "Zed"], rng.randrange(0, 4)))
    tgt = rng.choice(TARGETS)
    json.dump(s, open(d + "/s", "w"))
    code = run("report", d + "/s", tgt, d + "/o", real=i % 40 == 0)
    t = open(d + "/o").read() if code == 0 else ""
    ts, links = tables(t)
    rows = []
    for r in (ts[0] if ts else []):
        c = [x["text"] for x in r["cells"]]
        rows.append({"name": c[0], "status": c[1], "cells": c[2:], "fail": r["fail"]})
    want = []
    for name, m in s["measurements"].items():
        cells = []
        for k in METRICS:
            cells += [show(m[k]), str(m[k]["covered"]), str(m[k]["total"])]
        want.append({"name": name, "cells": cells, "percent": {k: hund(m[k]["percent"]) for k in METRICS}, "minimum": {k: hund(v) for k, v in s["minimums"][name].items()}, "target": {k: hund(v) for k, v in s["targets"][name].items()}})
    patch = [x["text"] for x in ts[1][0]["cells"]] if len(ts) > 1 and ts[1] else []
    emit("page", rows=rows, want=want, patch=patch, wantpatch=[show(s["patch"][k]) for k in ("lines", "branches")] if "patch" in s else [], overview=links == ["lcov/", "../../" if "/" in tgt else "../"])
    shutil.rmtree(d)


N = 2000 if tier == "thorough" else 250
for i in range(N):
    history(i)
emit("reset")
for i in range(4 * N):
    latest()
for i in range(2 * N):
    page(i)
