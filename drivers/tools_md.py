"""P01: markdown alignment (argv: repo, seed, tier). Runs in a scratch directory."""
import importlib.util, itertools, json, os, random, subprocess, sys
repo, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
sys.dont_write_bytecode = True
path = repo + "/tools/align_markdown_tables.py"
spec = importlib.util.spec_from_file_location("align_markdown_tables", path)
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)
rng = random.Random(seed)
C = lambda lines: [[ord(c) for c in s] for s in lines]


def emit(op, **kw):
    print(json.dumps({"op": op, **kw}, separators=(",", ":")))


def align(lines, op="align"):
    out = mod.align_text("\n".join(lines))
    emit(op, doc=C(lines), out=C(out.split("\n")), again=C(mod.align_text(out).split("\n")))


LINES = ["", "a", "|a|", "a|bbbb", "|-|", ":-|-:", "|:--:|", "a\\||b", "|a\\\\|", "```", "~~~a|", "````", "aa\\|", "``` `", "|"]
for n in (1, 2, 3):
    for d in itertools.product(LINES, repeat=n):
        align(list(d))
WORDS = ["", "a", "bb", "ccc c", "dddd", "x\\|y", "\\\\", "`code`", "`` ` ``", "äö", "日本", "-", "--", ":", ":-:", "a:b", "**b**", "\\", "&nbsp;", "~~s~~", "'", "long text in a cell", "1.5", "#", "\\|", "z\\"]


def table():
    n = rng.randrange(1, 5)
    ind = rng.choice(["", "", "", " ", "  ", "    ", "\t"])
    out = []
    for i in range(2 + rng.randrange(5)):
        m = n if rng.random() < 0.85 else rng.randrange(1, 6)
        if i == 1:
            cells = [rng.choice([":", ""]) + "-" * rng.choice([1, 2, 3, 3, 3, 4, 7]) + rng.choice([":", ""]) for _ in range(m)]
        else:
            cells = [rng.choice(WORDS) for _ in range(m)]
        pad = rng.randrange(3)
        sp = lambda: " " * (rng.randrange(4) if pad == 2 else pad) if rng.random() < 0.97 else "\t"
        row = "|".join(sp() + c + sp() for c in cells)
        a, b = rng.random() < 0.8, rng.random() < 0.8
        row = ("|" if a else "") + row + ("|" if b else "") + (" " * rng.randrange(3) if rng.random() < 0.15 else "")
        out.append(ind + row.lstrip())
    return out


def other():
    k = rng.randrange(6)
    if k == 0:
        return ["text" + rng.choice(["", " | with", "  trailing  ", "\ttab"])]
    if k == 1:
        f = rng.choice(["```", "````", "~~~", "~~~~~"])
        body = table() if rng.random() < 0.7 else []
        if rng.random() < 0.4:
            body.insert(rng.randrange(len(body) + 1), rng.choice(["```", "~~~", "``` x", "~~~ y", "``", "````", "  ```"]))
        end = rng.choice([f, f, f + f[0], "  " + f, f + "  ", f + " no", f[1:]])
        return [rng.choice(["", "  "]) + f + rng.choice(["", "cpp", " a b", " `", " a | b", "|-|"])] + body + [end]
    if k == 2:
        return ["", ""]
    if k == 3:
        return ["# head", "", "- item", "  - item"]
    if k == 4:
        return [rng.choice(["|---|", "---", "| a | b |", "``` inline ``` x", "> q", "----|", ":|:", "| - x |"])]
    return [""]


for _ in range(20000 if tier == "thorough" else 1800):
    d = []
    for _ in range(rng.randrange(1, 5)):
        d += table() if rng.random() < 0.55 else other()
        if rng.random() < 0.7:
            d.append("")
    align(d)


# the program: files, --check, exit status, line ends
def runs():
    for i in range(150 if tier == "thorough" else 24):
        check = rng.random() < 0.4
        docs, names = [], []
        for j in range(rng.choice([1, 1, 2])):
            d = table() + [""] + other()
            if rng.random() < 0.4:
                d = mod.align_text("\n".join(d)).split("\n")
            eol = rng.choice(["\n", "\n", "\r\n"])
            f = "f%d.md" % j
            with open(f, "w", encoding="utf-8", newline="") as h:
                h.write(eol.join(d))
            docs.append((d, eol))
            names.append(f)
        if len(docs) == 1:
            p = subprocess.run([sys.executable, "-B", path] + (["--check"] if check else []) + names, capture_output=True)
            d, eol = docs[0]
            now = open(names[0], encoding="utf-8", newline="").read()
            ls = now.split(eol)
            out = mod.align_text("\n".join(d)).split("\n")
            emit("file", doc=C(d), out=C(out), now=C(ls), same=out == d, code=p.returncode, check=check, ends=not any(x.endswith("\r") or "\n" in x for x in ls))
        else:
            p = subprocess.run([sys.executable, "-B", path] + (["--check"] if check else []) + names, capture_output=True)
            differ = any(mod.align_text("\n".join(d)).split("\n") != d for d, _ in docs)
            for (d, eol), f in zip(docs, names):
                ls = open(f, encoding="utf-8", newline="").read().split(eol)
                out = mod.align_text("\n".join(d)).split("\n")
                emit("file", doc=C(d), out=C(out), now=C(ls), same=out == d, code=p.returncode if out != d else int(p.returncode != int(differ)), check=check, ends=not any(x.endswith("\r") or "\n" in x for x in ls))


runs()
