"""F06: runs of the real glob program on real trees (argv: tool, seed, tier, shard, shards).
Everything happens below the current directory, which is a scratch directory."""
import json, os, random, shutil, subprocess, sys
exe, seed, tier, shard, shards = sys.argv[1], int(sys.argv[2]), sys.argv[3], int(sys.argv[4]), int(sys.argv[5])
top = os.path.realpath(os.getcwd()) + "/g%d" % shard
B = lambda b: list(os.fsencode(b))
rng = random.Random(seed * 1000 + shard)
of = rng.choice
P = lambda p: rng.random() * 100 < p
NAMES = ["a", "b", "a.cc", "b.cpp", "c.h", "x.tar.gz", ".x", ".git", ".a.cc", "end.", "a b", "..x", "\u00e4", "[a]", "s*r", "q?", "-", "a..b", ".h", "back\\s"]
SIZES = [0, 0, 1, 9, 10, 99, 100, 999, 1000, 1001, 1234, 9999, 10000, 123456, 1000000]
PATTERNS = ["", "*", "**", "**/*", "*.cc", "**/*.cc", "**/*.h", "**.h", "a", "a/**", "a/*", "*/a", "**/a", "?", "**/?", "[ab]", "**/[!a]*", ".*", "**/.*", "**/.*/**", "**/*.*", "b/**/a", "a/b", "**/a/**/b", "nothing",
            "**/[a-c].*", "**/a*", "*/*", "*/*/*", "**/*[.]cc", "\\*", "**/\\[a]", "**/s\\*r", "**/[[]*", "*/", "a/", "**/\u00e4", "**/a b", "**/.[!.]*"]
BAD = ["[", "a[", "**/[!", "[]", "a/[b", "a\\", "***/[", "[z-a]"]
# regular expressions, with the patterns that mean the same
RES = [("", [""]), (".*", ["**"]), (".*[.](cc|cpp|h)", ["**.cc", "**.cpp", "**.h"]), ("[^/]*", ["*"]), ("(.*/)?a", ["a", "**/a"]), ("a|b", ["a", "b"]), ("a(/.*)?", ["a/**"]), ("(a|b)/[^/]*[.]cc", ["a/*.cc", "b/*.cc"]),
       ("[^/]*/[^/]*", ["*/*"]), (".*[.]cc", ["**.cc"]), ("(.*/)?[^/]*[.]h", ["*.h", "**/*.h"]), ("nothing", ["nothing"]), ("(", []), ("a)", []), ("[", []), ("*", [])]
PLAIN = ["a", "b", "a.cc", ".x", "a b", "r"]


def tree(at):
    """entries [rel, kind, size, up]"""
    out = []
    places = [(0, "")]
    for _ in range(of([0, 1, 3, 5, 8, 12, 18])):
        up, d = of(places) if P(70) else places[-1]
        n = of(NAMES) if P(60) else of(PLAIN)
        rel = d + n
        p = at + "/" + rel
        if os.path.lexists(p):
            continue
        k = of("dddfffffflDpx")
        size = 0
        if k == "d":
            os.mkdir(p)
            places.append((len(out) + 1, rel + "/"))
        elif k == "f":
            size = of(SIZES)
            with open(p, "wb") as f:
                f.truncate(size)
        elif k == "D":
            os.symlink(of([top + "/other", top]), p)
        elif k == "l":
            if n[0] == ".":
                continue
            os.symlink(top + "/other/file", p)
            size = 4321
        elif k == "x":
            os.symlink("nowhere", p)
            k = "l"
        else:
            os.mkfifo(p)
        out.append({"path": B(rel), "kind": k, "size": size, "up": up})
    return out


def flags():
    fs = []
    for n, p in (("depth", 40), ("dotdir", 35), ("dotfile", 35), ("entries", 35), ("fast", 30), ("recurse_match", 30), ("size", 50), ("sum", 35), ("sum_extensions", 30), ("type", 50)):
        for _ in range(2 if P(6) else 1):
            if P(p):
                on = P(30) if n in ("dotdir", "dotfile", "entries", "recurse_match") else P(80)
                fs.append((n, on))
    if P(25):
        fs.append(("sum_every", of([0, 1, 1, 2, 3, 5, 100])))
    rng.shuffle(fs)
    return fs


def spell(n, v):
    d = of(["--", "--", "-"])
    if isinstance(v, bool):
        return [d + n + "=" + of(["true", "1", "yes"] if v else ["false", "0", "no"])] if P(35) else [d + ("" if v else "no") + n]
    return of([[d + n + "=%d" % v], [d + n, "%d" % v]])


def main():
    shutil.rmtree(top, ignore_errors=True)
    for _ in range((12000 if tier == "thorough" else 2400) // shards):
        shutil.rmtree(top, ignore_errors=True)
        os.makedirs(top + "/w/other")
        os.makedirs(top + "/other")
        with open(top + "/other/file", "wb") as f:
            f.truncate(4321)
        cwd = top + "/w"
        kind = of(["abs", "abs", "rel", "rel", "dot", "up", "deep"])
        root = {"abs": top + "/r", "rel": "r", "dot": ".", "up": "../r", "deep": "s/.t"}[kind]
        at = os.path.normpath(cwd + "/" + root) if kind != "abs" else root
        if kind == "dot":
            os.rmdir(cwd + "/other")
        else:
            os.makedirs(at)
        t = tree(at)
        fs = flags()
        globs = []
        re2 = P(20)
        if P(4):
            args, roots = of([[], [root, "*", "*"], ["a", "b", "c", "d"]]), [root]
        elif re2:
            r, globs = of(RES) if P(95) else of(RES[-4:])
            args, roots = [root, r], [root]
            if P(5):
                args[0] = of(["gone", top + "/gone", "r/gone/x", root + "/gone"])
        else:
            pat = of(PATTERNS) if P(95) else of(BAD)
            if P(25) and t:
                pat = of([bytes(e["path"]).decode() for e in t])
                for ch in "\\*?[":
                    pat = pat.replace(ch, "\\" + ch)
            # in one argument the root ends where the first special part begins
            special = [i for i, x in enumerate(pat.split("/")) if any(c in x for c in "*?[")]
            if P(45) and special and special[0] == 0 and "\\" not in pat and pat not in BAD:
                if kind == "dot":
                    args, roots = [of([pat, pat, "./" + pat])], [""]
                else:
                    args, roots = [of([root + "/", root + "/", root + "//"]) + pat], [root]
                if P(4) and kind != "dot":
                    args, roots = ["gone/" + pat], [root]
            else:
                args, roots = [root, pat], [root]
                if P(4):
                    args[0] = of(["gone", top + "/gone", "r/gone/x", "s/gone", root + "/gone"])
        if re2:
            fs.append(("re2", True))
        argv, rec = [], []
        for n, v in fs:
            argv.append(spell(n, v))
            rec.append({"n": n, "b": B(str(int(v)))})
        # arguments before, between and after the flags; "-" first would be a flag
        line, rest = [], list(args)
        for a in argv:
            while rest and P(30) and not rest[0].startswith("-"):
                line.append(rest.pop(0))
            line += a
        if any(x.startswith("-") for x in rest):
            line.append("--")
        line += rest
        # the program normalizes what it is given
        norm = [os.path.normpath(args[0]) + ("/" if args[0].endswith("/") else "")] + args[1:] if args else []
        try:
            p = subprocess.run([exe] + line, stdin=subprocess.DEVNULL, capture_output=True, timeout=60, cwd=cwd)
            code = 99 if b"AddressSanitizer" in p.stderr and b"SUMMARY" in p.stderr else p.returncode
            out = p.stdout
        except subprocess.TimeoutExpired:
            code, out = 98, b""
        if out and not out.endswith(b"\n"):
            code = 96
        print(json.dumps({"op": "run", "args": [B(x) for x in norm], "roots": [B(x) for x in roots], "globs": [B(x) for x in globs], "flags": rec, "tree": t, "code": code, "out": [list(x) for x in out.split(b"\n")[:-1]]}, separators=(",", ":")))


main()
shutil.rmtree(top, ignore_errors=True)
