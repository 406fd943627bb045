"""X04: runs of the real diff program (argv: tool, seed, tier, shard, shards).
Everything happens below the current directory, which is a scratch directory."""
import json, os, random, re, shutil, subprocess, sys
exe, seed, tier, shard, shards = sys.argv[1], int(sys.argv[2]), sys.argv[3], int(sys.argv[4]), int(sys.argv[5])
top = os.path.realpath(os.getcwd()) + "/x%d" % shard
HUGE = 1000000
B = lambda b: list(b)
LINES = [b"a", b"A", b"b", b"a b", b"a  b", b"a\tb", b" a b", b"a b ", b"ab", b"", b" ", b"#", b"#x", b"# 7", b"a # c", b"a#9", b"x12", b"x7 #3", b"'a#b' c", b'"#" d', b"'open # q", b"7", b"12", b"a // d", b"// e",
         b"B1b22", b"a\\#b", b"a\r", b"l1", b"l2", b"l3", b"l4", b"l5", b"l6", b"-- x", b"++ y", b"@@ -1 +1 @@", b"a rather long line that does not fit into a narrow column", b"\xc3\xa4\xff", b"n\0l", b"1", b"#1", b"a # 1"]
REGEX = [b"[0-9]+", b"^#", b"^$"]
BOOLS = ["ignore_all_space", "ignore_case", "ignore_consecutive_space", "ignore_blank_lines", "ignore_trailing_space", "ignore_missing_final_newline"]


def hunks(out):
    """Unified output as hunks; [] where it is none: told by the bytes."""
    mark = b"\\ No newline at end of file"
    hs, ls = [], out.split(b"\n")
    if ls and not ls[-1]:
        ls.pop()
    i = 0
    while i < len(ls):
        s = ls[i]
        m = re.match(rb"@@ -(\d{1,8})(?:,(\d{1,8}))? \+(\d{1,8})(?:,(\d{1,8}))? @@", s)
        if m:
            a, an, b, bn = (int(x) if x is not None else 1 for x in m.groups())
            hs.append({"l": a - (an != 0), "r": b - (bn != 0), "e": []})
        elif s[:1] in (b" ", b"-", b"+") and s and hs:
            bare = i + 1 < len(ls) and ls[i + 1] == mark
            hs[-1]["e"].append([b" -+".index(s[:1]), B(s[1:]), not bare])
            i += bare
        else:
            return []
        i += 1
    return hs


def run(args):
    env = dict(os.environ, TZ="UTC")
    p = subprocess.run([os.fsencode(exe)] + args, stdin=subprocess.DEVNULL, capture_output=True, timeout=60, cwd=top, env=env)
    if b"AddressSanitizer" in p.stderr and b"SUMMARY" in p.stderr:
        return 99, p.stdout, p.stderr
    return p.returncode, p.stdout, p.stderr


def main():
    rng = random.Random(seed * 1000 + shard)
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top)
    n = (8000 if tier == "thorough" else 1600) // shards
    for _ in range(n):
        many = rng.randrange(4)
        on = lambda p: rng.random() * 100 < (p / 3 if many == 0 else p)
        flags = []  # (name, value bytes, text, number, spelled)

        def text(name, v):
            v = v if isinstance(v, bytes) else v.encode()
            flags.append((name, v, 0))

        def num(name, v):
            flags.append((name, str(v).encode(), v))

        def boolean(name, v):
            flags.append((name, None, int(v)))

        if on(55):
            text("algorithm", rng.choice(["myers", "naive", "direct", "direct", "unified"] if rng.random() < 0.95 else ["", "Myers", "x"]))
        if on(50):
            text("format", rng.choice(["context", "normal", "side-by-side", "unified"] if rng.random() < 0.95 else ["", "side", "Normal"]))
        if on(50):
            num("context", rng.choice([0, 1, 2, 3, 5, 12]))
        if on(60):
            text("file_header_use", rng.choice(["both", "left", "none", "right"] if rng.random() < 0.95 else ["", "up"]))
        for b in BOOLS:
            if on(20):
                boolean(b, rng.random() < 0.75)
        if on(20):
            boolean("minimal", rng.random() < 0.8)
        if on(30):
            text("ignore_matching_lines", rng.choice(REGEX))
            if on(60):
                boolean("ignore_matching_chunks", rng.random() < 0.4)
        for side in ("lhs", "rhs"):
            if on(20):
                sep = rng.choice([b"/", b"|", b":"])
                text("regex_replace_" + side, rng.choice([b"", b"/b", b"x/b/c/", b"/b/c/d/"]) if rng.random() < 0.07 else sep + rng.choice(REGEX) + sep + rng.choice([b"", b"N", b"7 ", b"one and a half line of replacement"]) + sep)
        if on(35):
            text("strip_comments", rng.choice([b"#", b"//", b"a rather long mark which no line has"]))
            if on(50):
                boolean("strip_parsed_comments", rng.random() < 0.4)
        if on(25):
            num("max_lines", rng.choice([0, 1, 2, 3, 5, 8]))
        if on(25):
            boolean("show_chunk_headers", rng.random() < 0.5)
        if on(20):
            boolean("skip_left_deletions", rng.random() < 0.8)
        if on(30):
            boolean("skip_time", rng.random() < 0.7)
        if on(30):
            num("width", rng.choice([0, 4, 5, 11, 20, 40, 130]))
        if on(40):
            text("strip_file_header_prefix", rng.choice([b"", b"a/", b"a", b"zz", b".*/", b"[^/]*/", b"(a|b)/"]))
        rng.shuffle(flags)
        if rng.random() < 0.2:  # overridden by a later one
            for f in rng.sample(flags, min(len(flags), 2)):
                v = {"algorithm": b"naive", "format": b"context", "file_header_use": b"left", "strip_comments": b"#"}.get(f[0], f[1])
                k = 1 - f[2] if v is None else f[2]
                if f[0] in ("context", "width", "max_lines"):
                    k = rng.randrange(1, 9)
                    v = b"%d" % k
                flags.insert(rng.randrange(len(flags) + 1), (f[0], v, k))
        if any(f[0] == "skip_left_deletions" for f in flags):
            # nobody says where in the left file a hunk is whose removals are not shown
            boolean("show_chunk_headers", False)
        # two texts, often not far from each other
        base = [rng.choice(LINES) for _ in range(rng.choice([0, 1, 2, 4, 7, 10, 25]))]
        other = []
        p = rng.choice([0, 15, 40, 100])
        for s in base:
            if rng.random() < 0.06 and p:
                continue
            if rng.random() * 100 < p:
                k = rng.randrange(8)
                s = [s + b" ", b" " + s, s.replace(b" ", b"  "), s.swapcase(), s + b" # z", re.sub(rb"[0-9]", b"9", s), s.replace(b" ", b""), s + b"//k"][k]
            other.append(s)
            if rng.random() < 0.08 and p:
                other.append(rng.choice([b"", rng.choice(LINES), b"%d" % rng.randrange(30), b"#%d" % rng.randrange(9)]))
        join = lambda v: b"\n".join(v) + (b"\n" if v and rng.random() < 0.8 else b"")
        files, args = [], []
        names = rng.sample([b"a/f.txt", b"b/f.txt", b"a/x/y.h", b"plain", b"zz.txt", b"a b"], 2)
        same = rng.random() < 0.12
        bodies = [join(base), join(other)]
        if same:
            bodies[1] = bodies[0]
        count = 2 if rng.random() < 0.95 else rng.choice([0, 1, 3])
        for k in range(count):
            name = names[k] if k < 2 else names[0]
            path = os.path.join(os.fsencode(top), name)
            if os.path.isdir(path):
                shutil.rmtree(path)
            elif os.path.exists(path):
                os.remove(path)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            there = rng.random() < 0.97
            t = rng.choice([0, 1, 951782399, 951782400, 951868800, 978307199, 1709164800, 1735689599, 2147483647, rng.randrange(2**31 - 1)])
            if there:
                with open(path, "wb") as f:
                    f.write(bodies[k] if k < 2 else b"third\n")
                os.utime(path, (t, t))
            elif rng.random() < 0.4:
                os.mkdir(path)
            files.append({"there": there, "name": B(name), "data": B(bodies[k] if k < 2 else b"third\n") if there else [], "time": t})
            args.append(name)
        if count == 3 and files[2]["name"] == files[0]["name"]:
            files[0] = dict(files[2])
        spelled = []
        for name, v, i in flags:
            nm = name.encode()
            if v is None:
                spelled.append(rng.choice([[b"--" + nm], [b"--" + nm + b"=true"], [b"--" + nm + b"=1"], [b"-" + nm]]) if i else rng.choice([[b"--no" + nm], [b"--" + nm + b"=false"], [b"--" + nm + b"=0"]]))
            else:
                spelled.append(rng.choice([[b"--" + nm + b"=" + v], [b"--" + nm + b"=" + v], [b"--" + nm, v]]))
        # flags may stand anywhere
        def line(parts):
            out, rest = [], list(args)
            for q in parts:
                if rest and rng.random() < 0.15:
                    out.append(rest.pop(0))
                out += q
            return out + rest

        code, out, err = run(line(spelled))
        drop = {"format", "context", "file_header_use", "show_chunk_headers", "skip_left_deletions"}
        known = [s for f, s in zip(flags, spelled) if f[0] not in drop]
        bcode, bout, _ = run(line(known + [[b"--format=unified"], [b"--context=%d" % HUGE], [b"--file_header_use=none"], [b"--show_chunk_headers=true"], [b"--noskip_left_deletions"]]))
        rec = {"op": "run", "flags": [{"n": nme, "s": "" if v is None else v.decode("latin1"), "b": [] if v is None else B(v), "i": i} for nme, v, i in flags], "files": files,
               "code": code, "out": B(out), "bcode": bcode, "bout": B(bout), "big": hunks(bout)}
        print(json.dumps(rec, separators=(",", ":")))


main()
shutil.rmtree(top, ignore_errors=True)
