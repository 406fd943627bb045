"""D07: histories of files and runs of the real checksum tool (argv: tool, seed, tier, shard, shards).
Everything happens below the current directory, which is a scratch directory."""
import hashlib, json, os, random, re, shutil, subprocess, sys
exe, seed, tier, shard, shards = sys.argv[1], int(sys.argv[2]), sys.argv[3], int(sys.argv[4]), int(sys.argv[5])
top = os.path.realpath(os.getcwd()) + "/d%d" % shard
ALGS = "md5 sha1 sha224 sha256 sha384 sha512 sha512-224 sha512-256 sha3-224 sha3-256 sha3-384 sha3-512 shake128 shake256 blake2b blake2b-256 blake3".split()
NAMES = [b"a", b"b", b"x y", b" lead", b"*star", b"n\nl", b"b\\s", b"c\rr", b"trail ", b"\xc3\xa9\xff", b"sub/f", b"hash#", b"q'\"", b"\\n", b"\\", b"a\\\nb", b"-", b"dir", b"d e"]
B = lambda b: list(b)


def other(alg, m):  # another implementation, for contents too long to be judged by definition
    if alg == "blake3":
        return None
    if alg.startswith("shake"):
        return hashlib.new(alg.replace("shake", "shake_"), m).hexdigest(32)
    if alg.startswith("blake2b"):
        return hashlib.blake2b(m, digest_size=32 if alg.endswith("256") else 64).hexdigest()
    return hashlib.new(alg.replace("-", "_"), m).hexdigest()


def emit(op, **kw):
    kw = {"op": op, **kw}
    print(json.dumps(kw, separators=(",", ":")))


def run(args, stdin=b"", cwd=None):
    if stdin == "dir":
        f = os.open(".", os.O_RDONLY)
        p = subprocess.run([exe] + args, stdin=f, capture_output=True, timeout=30, cwd=cwd or "w")
        os.close(f)
        return p
    return subprocess.run([exe] + args, input=stdin, capture_output=True, timeout=30, cwd=cwd or "w")


def history(rng):
    emit("reset")
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top + "/w/sub")
    os.chdir(top)
    algs = rng.sample(ALGS, 2)
    if rng.random() < 0.3:
        algs[0] = "sha256"
    bodies = [b"", b"abc"]
    for _ in range(rng.randrange(3)):
        bodies.append(bytes(rng.randrange(256) for _ in range(rng.choice([1, 3, 55, 56, 63, 64, 65, 100, 130]))))
    if rng.random() < 0.5 and "blake3" not in algs:
        bodies.append(rng.randbytes(rng.choice([65535, 65536, 65537, 131072, 200000])))
    bodies = list(dict.fromkeys(bodies))
    w = {}
    for a in algs:
        for k, m in enumerate(bodies):
            big = len(m) > 200
            hx = other(a, m) or ""
            w[a] = {"md5": 32, "sha1": 40}.get(a) or (len(hx) if hx else 64)
            emit("content", alg=a, name=a.replace("-", "_"), k=k + 1, big=big, m=[] if big else B(m), hex=B(hx.encode()) if big else [])
    names = rng.sample(NAMES, 6)
    node = {n: 0 for n in names}

    def change(n):
        p = b"w/" + n
        if os.path.isdir(p) and not os.path.islink(p):
            os.rmdir(p)
        elif os.path.lexists(p):
            os.unlink(p)
        k = rng.random()
        if k < 0.72:
            i = rng.randrange(len(bodies))
            if k < 0.06:  # through a link
                t = b"../t%d" % rng.randrange(10**9)
                open(os.path.join(b"w", t), "wb").write(bodies[i])
                os.symlink(os.fsencode(top) + b"/w/" + t, p)
            else:
                open(p, "wb").write(bodies[i])
            node[n] = i + 1
        elif k < 0.86:
            node[n] = 0
            if k < 0.76:
                os.symlink("nowhere", p)
        else:
            os.mkdir(p)
            node[n] = -1
        emit("set", n=B(n), k=node[n])
    for n in names:
        change(n)
    made = []

    def algflag(a):
        others = [x for x in ALGS if x != a]
        forms = [["-a", a], ["-a=" + a], ["--a=" + a], ["--algorithm=" + a], ["--algorithm", a], ["--algorithm=" + rng.choice(others), "-a", a], ["-a", a, "--algorithm=" + rng.choice(others)]]
        if a == "sha256":
            forms += [[], [], []]
        return rng.choice(forms)

    def place(args, files):  # flags first, names after --, or below another directory
        rng.shuffle
        if rng.random() < 0.2:
            return args + ["--cwd=" + top + "/w", "--"] + files, top
        return args + ["--"] + files, None

    def gen():
        a = rng.choice(algs)
        ns = [rng.choice(names) for _ in range(rng.randrange(1, 5))]
        while ns.count(b"-") > 1:
            ns.remove(b"-")
        rev, skip = rng.random() < 0.15, rng.random() < 0.3
        stdin = 0
        if b"-" in ns:
            stdin = rng.choice(list(range(1, len(bodies) + 1)))
        args = algflag(a) + (["--reverse"] if rev else []) + ([rng.choice(["-d", "--ignore_directories", "--d"])] if skip else [])
        args, cwd = place(args, ns)
        p = run(args, "dir" if stdin < 0 else bodies[stdin - 1] if stdin else b"", cwd)
        emit("gen", alg=a, names=[B(n) for n in ns], stdin=stdin, reverse=rev, skipdirs=skip, out=B(p.stdout), code=p.returncode, errlen=len(p.stderr))
        if not rev:
            made.append((a, p.stdout))

    def line(a):
        k = rng.random()
        n = rng.choice(names)
        m = rng.choice(bodies)
        hx = other(a, m)
        if hx is None or rng.random() < 0.1:
            hx = "".join(rng.choice("0123456789abcdef") for _ in range(w[a]))
        hx = hx.encode()
        if node[n] == -1 and rng.random() < 0.5:
            hx = (other(a, b"") or "0" * w[a]).encode()
        if k < 0.4 and made:
            x = [s for b, t in made for s in t.split(b"\n") if s and (b == a or rng.random() < 0.1)]
            if x:
                s = rng.choice(x)
                j = rng.random()
                if j < 0.2:
                    i = rng.randrange(len(s))
                    s = s[:i] + bytes([rng.choice(b"0aF *\\ngz\0")]) + s[i + 1:]
                elif j < 0.3:
                    s = s[:w[a]].upper() + s[w[a]:]
                elif j < 0.4:
                    s = s[:w[a] + 1] + b"*" + s[w[a] + 2:]
                elif j < 0.45:
                    s = s[1:]
                return s
        if k < 0.75:
            special = any(c in n for c in b"\n\\\r")
            if special and rng.random() < 0.8 or b"\n" in n:
                return b"\\" + hx + rng.choice([b"  ", b" *"]) + n.replace(b"\\", b"\\\\").replace(b"\n", b"\\n").replace(b"\r", b"\\r")
            return (hx.upper() if rng.random() < 0.2 else hx) + rng.choice([b"  ", b" *"]) + n
        if k < 0.8:
            return b"\\" + hx + b"  " + n.replace(b"\n", b"")
        return rng.choice([b"", b"", b"junk", b"# comment", hx, hx + b"  ", hx + b" " + n.replace(b"\n", b""), hx[1:] + b"  a", b"0" + hx + b"  a", b" " + hx + b"  a", b"x" + hx[1:] + b"  a", hx + b"  nosuch", hx + b"\ta", b"\\" + hx + b"  a\\", b"\\" + hx + b"  a\\x", b"\\"])

    def check():
        a = rng.choice(algs)
        sums, files, broken, stdin = [], [], False, b""
        for i in range(rng.choice([1, 1, 1, 2, 3])):
            ls = [line(a) for _ in range(rng.randrange(5))]
            if rng.random() < 0.3 and made:
                x = [t for b, t in made if b == a]
                if x:
                    ls = rng.choice(x).split(b"\n")[:-1]
            ls = [s.replace(b"\n", b"").replace(b"\0", b"") for s in ls]
            t = b"\n".join(ls)
            if rng.random() < 0.8 and ls:
                t += b"\n"
            k = rng.random()
            if k < 0.2 and b"-" not in files and b"-" not in names:
                files.append(b"-")
                stdin = t
            elif k < 0.26:
                files.append(rng.choice([b"nosuchsums", b"sub"]))
                broken = True
            else:
                f = b"../s%d" % i
                open("s%d" % i, "wb").write(t)
                files.append(f)
            sums.append(t)
        o = {x: rng.random() < q for x, q in (("quiet", .25), ("status", .2), ("ignore", .25), ("strict", .25))}
        args = algflag(a) + [rng.choice(["-c", "--check", "--c"])] + [("--" + {"ignore": "ignore_missing"}.get(x, x)) for x in o if o[x]]
        if rng.random() < 0.3:
            args += ["--no" + {"ignore": "ignore_missing"}.get(x, x) for x in o if not o[x]]
        args, cwd = place(args, files)
        p = run(args, stdin, cwd)
        e = p.stderr.decode("latin1")
        got = [sum(int(x) for x in re.findall(r"WARNING: (\d+) [^\n]*" + k, e)) for k in ("improperly", "could not be read", "NOT match")]
        emit("check", alg=a, w=w[a], sums=[B(t) for t in sums], broken=broken, **o, out=B(p.stdout), code=p.returncode, errlen=len(e), warned=got)

    def refused():
        k = rng.randrange(4)
        args = [["-a", "sha257", "a"], ["--algorithm=SHA256", "a"], [], ["--cwd=" + top + "/nosuch", "a"]][k]
        p = run(args)
        emit("refused", out=B(p.stdout), code=p.returncode, errlen=len(p.stderr))
    gen()
    for _ in range(22):
        k = rng.random()
        if k < 0.25:
            gen()
        elif k < 0.5:
            change(rng.choice(names))
        elif k < 0.98:
            check()
        else:
            refused()
    os.chdir("/")
    shutil.rmtree(top, ignore_errors=True)


for h in range(1500 if tier == "thorough" else 120):
    if h % shards == shard:
        history(random.Random(seed * 1000003 + h))
