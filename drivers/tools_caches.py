"""P03: cache cleanup (argv: repo, seed, tier)."""
import copy, importlib.util, itertools, json, random, subprocess, sys
repo, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
sys.dont_write_bytecode = True
path = repo + "/tools/cache_cleanup.py"
spec = importlib.util.spec_from_file_location("cache_cleanup", path)
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)
rng = random.Random(seed)
C = lambda s: [ord(c) for c in s]


def emit(op, **kw):
    print(json.dumps({"op": op, **kw}, separators=(",", ":")))


def recs(caches):
    return [{"id": c["id"], "key": C(c["key"]), "time": C(c["createdAt"])} for c in caches]


def expire(caches, prefix):
    before = copy.deepcopy(caches)
    k = rng.randrange(3)
    got = list(mod.expired_cache_ids(caches if k else iter(caches), prefix))
    emit("expire", caches=recs(before), prefix=C(prefix), got=[int(x) for x in got], kept=before == caches)


def run(caches, prefix):
    p = subprocess.run([sys.executable, "-B", path, prefix], input=json.dumps(caches).encode(), capture_output=True)
    emit("main", caches=recs(caches), prefix=C(prefix), got=[int(x) for x in p.stdout.split()] if p.returncode == 0 else [], code=p.returncode)


T = lambda d, h=12, s=0, f="": "2026-%02d-%02dT%02d:00:%02d%sZ" % (8 if d < 28 else 9, d % 28 + 1, h, s, f)
FRACTIONS = ["", ".5", ".50", ".49", ".123", ".123456", ".123456789", ".000001", ".0", ".9", ".987654321"]
KEYS = ["m", "m-x", "mx", "l"]
for n in range(4):
    for ks in itertools.product(KEYS, repeat=n):
        for ts in itertools.product((3, 30, 12), repeat=n):
            ids = rng.sample(range(1, 10), n)
            for p in ("m", "m-", "", "l", "M", "mx"):
                if n < 3 or rng.random() < 0.25:
                    expire([{"id": i, "key": k, "createdAt": T(t)} for i, k, t in zip(ids, ks, ts)], p)
for fs in itertools.product(FRACTIONS, repeat=2):
    for s in ((0, 0), (1, 0), (0, 1)):
        for ks in (("m", "m"), ("m", "l")):
            expire([{"id": i + 1, "key": k, "createdAt": T(3, 12, s[i], f)} for i, (k, f) in enumerate(zip(ks, fs))], "m")
PARTS = ["linux", "gcc", "main", "a", "b", "-", "-", "_", "refs/heads/x", "*", "."]
for i in range(20000 if tier == "thorough" else 2500):
    keys = ["".join(rng.choice(PARTS) for _ in range(rng.randrange(1, 4))) for _ in range(rng.randrange(1, 4))]
    keys += [k + rng.choice(PARTS) for k in keys]
    ids = rng.sample(range(1, 2000000000), 40)
    days = rng.choice((1, 1, 2, 50))
    fractions = rng.choice(([""], [".5", ".25", ".999", ".001"], [".%06d" % rng.randrange(10 ** 6) for _ in range(5)], FRACTIONS))
    cs = [{"id": ids[j], "key": rng.choice(keys), "createdAt": T(rng.randrange(days), rng.choice((0, 9, 10, 23)[:days]), rng.choice((0, 1, 59)[:days]), rng.choice(fractions))} for j in range(rng.choice((1, 2, 3, 5, 12, 40)))]
    k = rng.choice(keys)
    p = rng.choice([k, k, k[:rng.randrange(len(k) + 1)], "", "zz", k[1:], k.upper()])
    (run if i % 100 == 0 else expire)(cs, p)
for a in ([], ["x", "y"]):
    p = subprocess.run([sys.executable, "-B", path] + a, input=b"[]", capture_output=True)
    emit("usage", code=p.returncode, got=C(p.stdout.decode()))
