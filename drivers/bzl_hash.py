"""Records what mbo/hash/hash.bzl computes (Starlark is close enough to Python to be executed by it).
argv: repo seed tier"""
import json, random, sys, types
repo, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
src = open(repo + "/mbo/hash/hash.bzl").read()




class Fail(Exception):
    pass


def fail(*a):
    raise Fail(*a)




import ast
tree = ast.parse(src)


class Wrap(ast.NodeTransformer):  # x.elems() -> list(x)
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "elems" and not n.args:
            return ast.copy_location(ast.Call(ast.Name("list", ast.Load()), [n.func.value], []), n)
        return n


tree = ast.fix_missing_locations(Wrap().visit(tree))
env = {"type": lambda x: "string" if isinstance(x, str) else "list" if isinstance(x, list) else "int" if isinstance(x, int) else type(x).__name__,
       "fail": fail, "struct": lambda **k: types.SimpleNamespace(**k)}
exec(compile(tree, "hash.bzl", "exec"), env)
H = env["hash"]
r = random.Random(seed)
lim = lambda v: [(v >> (16 * i)) & 0xFFFF for i in range(4)] if isinstance(v, int) and 0 <= v < 1 << 64 else []
out = []


def emit(alg, m, s, data):
    f = getattr(H, alg)
    h = f(data) if s is None else f(data, s)
    d = {"mumbo": 5381, "dumbo": 0, "fnv1a": 0xCBF29CE484222325}[alg] if s is None else s
    print(json.dumps({"op": "h", "alg": alg, "m": m, "seed": lim(d), "h": lim(h)}, separators=(",", ":")))


seeds = [None, 0, 5381, (1 << 64) - 1, r.getrandbits(64)]
k = 0
for alg in ("mumbo", "dumbo", "fnv1a"):
    lens = list(range(0, 150)) + [191, 255, 256, 257, 260, 383, 384, 385, 500] + ([r.randrange(2000) for _ in range(100)] if tier == "thorough" else [])
    for n in lens:
        m = [r.randrange(256) for _ in range(n)]
        emit(alg, m, seeds[k % 5], m)
        k += 1
    for n in list(range(0, 40)) + [95, 130]:
        t = "".join(chr(r.randrange(32, 127)) for _ in range(n))
        emit(alg, [ord(c) for c in t], seeds[k % 5], t)
        k += 1
    for c in range(32, 127):
        emit(alg, [c], seeds[k % 5], chr(c))
        k += 1
    for v in (0, 255):
        for n in (1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 32, 33, 128, 129):
            emit(alg, [v] * n, seeds[k % 5], [v] * n)
            k += 1
    for bad in ("\x7f", "a\nb", "\x1f", "\xe9", "\t"):
        try:
            getattr(H, alg)(bad)
            ok = False
        except Fail:
            ok = True
        print(json.dumps({"op": "ctstream", "alg": alg, "ok": ok}))
