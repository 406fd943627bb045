"""M02: runs of the real template program (argv: tool, seed, tier, shard, shards).
Everything happens below the current directory, which is a scratch directory."""
import json, os, random, shutil, subprocess, sys
exe, seed, tier, shard, shards = sys.argv[1], int(sys.argv[2]), sys.argv[3], int(sys.argv[4]), int(sys.argv[5])
top = os.path.realpath(os.getcwd()) + "/m%d" % shard
B = lambda b: list(b)
rng = random.Random(seed * 1000 + shard)
of = rng.choice
P = lambda p: rng.random() * 100 < p
NAMES = ["a", "b", "s", "t", "i", "n", "m", "name_2"]
VALUES = ["1", "2", "3", "-1", "v", "", "two words", "{{a}}", "x=y", "=", "a=b=c", "{{#s}}", "\n", "://", "k:v", "\xc3\xa4", "-", " pad "]


def lit():
    return of(["x", " ", "\n", "\t", "}", "{", "{{", "}}", "a b", "\r\n", "  \n", "{{ a }}", "{{a}", "{{/s}}", "\0", "\xff", ",", "line\n"])


def join():
    return of(["\",\"", "','", "\" - \"", "'\\n'", "\"\"", "n", "a"] if P(90) else ["\"a", "x y", "zz"])


def num():
    return of(["0", "1", "2", "3", "-1", "n", "m", "i"] if P(95) else ["zz", "a", "b"])


def tag(depth):
    n = of(NAMES)

    def body():
        return (text(depth - 1) if P(70) else "{{" + n + "}}") + ("{{" + of(NAMES) + "}}" if P(40) else "")

    def wrap(config):
        b, end = body(), "{{/" + n + "}}" if P(99) else ""
        if P(35):
            return of(["", "  "]) + "{{#" + n + config + "}}\n" + b + of(["\n", ""]) + end + "\n"
        return "{{#" + n + config + "}}" + b + end

    k = rng.randrange(4 if depth <= 0 else 11)
    if k < 3:
        return "{{" + n + "}}"
    if k == 3:
        return "{{" + n + "=" + of(["v", "1", "2", "3", "a b"]) + "}}" + of(["", "\n"]) if P(50) else lit()
    if k < 7:
        return wrap("")
    if k == 7:
        return wrap(":" + join())
    if k == 8:
        return wrap("=" + num() + ";" + num() + of(["", "", ";1", ";2", ";-1", ";n", ";;" + join(), ";1;" + join()]))
    if k == 9:
        return wrap("=[" + ",".join(of(["one", "2", "'a,b'", "x\\,y", ""]) for _ in range(1 + rng.randrange(3))) + "]" + of(["", "", ";" + join()]))
    return wrap("=")


def text(depth):
    return "".join(lit() if P(30) else tag(depth) for _ in range(rng.randrange(5)))


PLAIN = [n for n in NAMES if n not in ("s", "t")]


def item(tame, used):
    key = of(PLAIN if tame else NAMES)
    if P(30):
        key = ":" + key
    else:
        k = of([0, 0, 1, 1, 2, 3])
        if tame and key in used:
            k = max(k, 1)
        if k == 0:
            used.add(key)
        for _ in range(k):
            key = of(["s", "t"] if tame else ["s", "t", "s", "a"]) + ":" + key
    if not tame and P(6):
        key = of(["", ":", "a:", "s::a", "::a", "9", ":9", "s:9", "9:a", "a b", "s.t:a", ":a b", "#s", "s:"])
    return key if P(12) else key + "=" + of(VALUES)


def ini(tame, used):
    out = []
    def keys(root=False):
        for _ in range(rng.randrange(4)):
            out.append(of([n for n in PLAIN if not (root and n in used)] + ["_x"] if tame else NAMES if P(99) else ["9", "a b", ""]) + of(["=", "=", " = "]) + of(["1", "v", "w x", "", "{{a}}", "x=y", "3"]))
        if P(20):
            out.append(of(["; a=1", "# b", "", "  ", "; [s]" if tame else "t"]))
    keys(True)
    for _ in range(rng.randrange(6)):
        out.append("[" + ".".join(of(["s", "t", "s:1", "s:2", "t:", "s:10", "t:x y", "s:1:2"] if tame else ["a", "b", "s", "s:1", "s:2", "t", "t:", "s:10"] if P(98) else ["9", "", "a b"]) for _ in range(of([1, 1, 2, 2, 3, 4, 5]))) + "]")
        keys()
    return of(["\n", "\n", "\r\n"]).join(out) + of(["", "\n"])


def kind(path):
    if os.path.isdir(path):
        return 2
    if os.path.exists(path):
        return 1
    return 0 if os.path.isdir(os.path.dirname(path)) else 3


def state(names):
    out = []
    for n in names:
        p = os.path.join(os.fsencode(top), n)
        k = kind(p)
        out.append({"name": B(n), "kind": k, "data": B(open(p, "rb").read()) if k == 1 else []})
    return out


def main():
    shutil.rmtree(top, ignore_errors=True)
    for _ in range((16000 if tier == "thorough" else 3200) // shards):
        shutil.rmtree(top, ignore_errors=True)
        os.makedirs(top + "/d/sub")
        tame = P(60)
        names = [b"t.mope", b"d/t.tpl", b"u.mope", b"i.ini", b"d/j.ini", b"-", b"out", b"d/out", b"d", b"nope/out", b"gone"]
        put = lambda n, s: open(os.path.join(os.fsencode(top), n), "wb").write(s.encode("latin1", "replace"))
        used = set()
        sets = [item(tame, used) for _ in range(of([0, 1, 1, 2, 3, 5, 8]))]
        t = text(3)
        # what is set is asked for
        for s in sets:
            ps = s.split("=")[0].split(":")
            if P(60) and all(ps[1:]) and (ps[0] or len(ps) == 2):
                ask = "{{" + ps[-1] + "}}"
                for q in reversed([x for x in ps[:-1] if x]):
                    ask = "{{#%s%s}}%s{{/%s}}" % (q, of(["", ":','"]), ask, q)
                t = t + "|" + ask if P(50) else ask + t
        tpl = of([b"t.mope", b"d/t.tpl"])
        put(tpl, t)
        if P(40):
            put(b"u.mope", text(2))
        for n in (b"i.ini", b"d/j.ini"):
            if P(97 if tame else 70):
                put(n, ini(tame, used))
        if P(25):
            put(b"-", of([ini(tame, used), text(1)]))
        for n in (b"out", b"d/out"):
            if P(40):
                put(n, of(["old", "", "older text " * 40]))
        flags = []
        if P(97):
            flags.append((b"template", tpl if P(93) else of([b"gone", b"d", b"", b"u.mope", b"i.ini", b"nope/out"])))
        # the list as one or as several flags, of which the last counts
        if sets or P(20):
            flags.append((b"set", ",".join(s.replace(",", "") for s in sets).encode("latin1")))
        if P(10):
            flags.insert(rng.randrange(len(flags) + 1), (b"set", ",".join(item(tame, used) for _ in range(rng.randrange(3))).encode("latin1")))
        if P(45):
            flags.append((b"ini", of([b"i.ini", b"d/j.ini"]) if P(95 if tame else 75) else of([b"", b"-", b"gone", b"d"])))
        if P(45):
            flags.append((b"generate", of([b"out", b"d/out"]) if P(75) else of([b"", b"-", b"d", b"nope/out", tpl, b"i.ini"])))
        if P(8):
            flags.append((of([b"template", b"ini", b"generate"]), of([b"i.ini", b"out", b"d/t.tpl", b""] if tame else [b"u.mope", b"i.ini", b"out", b"", b"gone"])))
        if P(40):
            sf = [f for f in flags if f[0] == b"set"]
            rng.shuffle(flags)
            if len(sf) == 2 and [f for f in flags if f[0] == b"set"] != sf:
                flags.reverse()
        args = []
        for n, v in flags:
            args += of([[b"--" + n + b"=" + v], [b"--" + n + b"=" + v], [b"-" + n + b"=" + v], [b"--" + n, v]])
        rest = of([[b"u.mope"], [b"--", b"x"], [b"-"], [b"x", b"y"], [b""]]) if P(3) else []
        if rest and rest[0] == b"--":
            args, rest = args + rest, rest[1:]
        else:
            args = args + rest
        before = state(names)
        try:
            p = subprocess.run([os.fsencode(exe)] + args, stdin=subprocess.DEVNULL, capture_output=True, timeout=60, cwd=top)
            code = 99 if b"AddressSanitizer" in p.stderr and b"SUMMARY" in p.stderr else p.returncode
            out = p.stdout
        except subprocess.TimeoutExpired:
            code, out = 98, b""
        rec = {"op": "run", "flags": [{"n": n.decode(), "b": B(v)} for n, v in flags], "rest": len(rest), "files": before, "code": code, "out": B(out), "after": state(names)}
        print(json.dumps(rec, separators=(",", ":")))


main()
shutil.rmtree(top, ignore_errors=True)
