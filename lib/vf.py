"""Shared machinery of the checks: build drivers from /repo's working tree, record
traces of the real code, let TLC judge them against the TLA+ specification, report.

Outcome: exit 0 (held), exit 1 with VIOLATION line(s), anything else = check error.
"""
import json, os, re, shutil, subprocess, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLA_DIR = "/opt/veriftools/tla"
CP = ":".join([os.path.join(TLA_DIR, "tla2tools.jar"), os.path.join(TLA_DIR, "CommunityModules-deps.jar")])
CXX = next((c for c in ("/usr/bin/g++-13", "/usr/bin/g++") if os.path.exists(c)), "g++")
NPROC = 8


class CheckError(Exception):
    """The check itself could not be carried out (no verdict)."""


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_FSIZE, (2 << 30, 2 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class TlcResult:
    def __init__(self):
        self.states = self.transitions = 0
        self.rejects = []
        self.ok = False
        self.out = ""
        self.error = None
        self.wall = 0.0


class Check:
    verif, repo, spec = VERIF, REPO, SPEC

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(VERIF, ".work", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.assumptions = [], {}, []
        self.violations = []  # (text, replay dict)
        self.known = []
        self.findings = load_findings(prop)
        self.ex = ThreadPoolExecutor(max_workers=NPROC)
        self._gen = None
        self.n_tlc = 0

    thorough = property(lambda self: self.tier == "thorough")

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------ building
    def gen_headers(self, throws=True, unroll=16, mangle=0x5DEECE66D1234567):
        d = os.path.join(self.work, "gen_%d_%d_%x" % (throws, unroll, mangle))
        if os.path.isdir(d):
            return d
        os.makedirs(d + "/mbo/config")
        os.makedirs(d + "/mbo/hash")
        # Rendered from the repository's own template, as its build does.
        text = open(REPO + "/mbo/config/internal/config.h.in").read()
        text = re.sub(r"kRequireThrows = false;", "kRequireThrows = %s;" % ("true" if throws else "false"), text)
        text = re.sub(r"kUnrollMaxCapacityDefault = 16;", "kUnrollMaxCapacityDefault = %d;" % unroll, text)
        open(d + "/mbo/config/config_gen.h", "w").write(text)
        open(d + "/mbo/hash/hash_mangle_seed_gen.h", "w").write(
            "#ifndef MBO_HASH_HASH_MANGLE_SEED_GEN_H_\n#define MBO_HASH_HASH_MANGLE_SEED_GEN_H_\n"
            "#include <cstdint>\nnamespace mbo::hash {\ninline constexpr uint64_t kMangleConstant = 0x%XULL;\n"
            "}\n#endif\n" % mangle)
        return d

    def build(self, name, srcs, flags=(), ct=False, **kw):
        """ct: the driver also evaluates the code under test at compile time (unless VF_NO_CT).
        Code that no longer can be evaluated there, but still compiles, breaks the property."""
        if not ct:
            return self._build(name, srcs, flags=flags, **kw)
        try:
            return self._build(name, srcs, flags=flags, **kw)
        except CheckError as e:
            exe = self._build(name, srcs, flags=list(flags) + ["-DVF_NO_CT"], **kw)
            err = [x for x in str(e).split("\n") if "error" in x]
            self.reject("build", {"op": "constexpr", "driver": name, "error": "\n".join(err[:5])[:1500]},
                        "evaluation in constant expressions fails", "compile time")
            return exe

    def _build(self, name, srcs, flags=(), opt="-O1", shim=False, asan=False, std="c++20", repo_srcs=(), gen=None, libs=(), cxx=None):
        gen = gen or self.gen_headers()
        exe = os.path.join(self.work, name)
        common = [cxx or CXX, "-std=" + std, opt, "-w", "-g0", "-iquote", REPO, "-iquote", gen, "-I", os.path.join(VERIF, "drivers")]
        if shim:
            common += ["-isystem", os.path.join(VERIF, "shim")]
            # the repository includes "absl/..." with quotes: the shim must precede /usr/include
            common += ["-iquote", os.path.join(VERIF, "shim")]
        if asan:
            common += ["-fsanitize=address", "-fno-omit-frame-pointer", "-g1"]
        common += list(flags)
        files = [os.path.join(VERIF, "drivers", s) if not os.path.isabs(s) else s for s in srcs]
        files += [os.path.join(REPO, s) for s in repo_srcs]
        objs = []

        def one(i_f):
            i, f = i_f
            o = "%s.%d.o" % (exe, i)
            p = subprocess.run(common + ["-c", f, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=REPO)
            if p.returncode != 0:
                raise CheckError("build of %s failed:\n%s" % (f, p.stdout[-6000:]))
            return o
        objs = list(self.ex.map(one, enumerate(files))) if len(files) > 1 else [one((0, files[0]))]
        link = [cxx or CXX] + (["-fsanitize=address"] if asan else []) + objs + ["-o", exe, "-lpthread"] + list(libs)
        p = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise CheckError("link of %s failed:\n%s" % (name, p.stdout[-6000:]))
        return exe

    def build_many(self, jobs):
        """jobs: list of kwargs for build(); built in parallel."""
        self.gen_headers()
        with ThreadPoolExecutor(max_workers=NPROC) as ex:
            return list(ex.map(lambda kw: self.build(**kw), jobs))

    # ------------------------------------------------------------- drivers
    def drive(self, exe, args=(), timeout=150, env=None, stdin=None, name=None, cwd=None):
        """Runs a driver; returns its trace lines (ndjson). A crash or hang of the code under
        test becomes a final event {"op":"crash",...}, which no specification accepts."""
        name = name or os.path.basename(exe)
        out = os.path.join(self.work, "%s.%d.ndjson" % (name, abs(hash(tuple(map(str, args)))) % 10**9))
        e = dict(os.environ)
        e.update({"ASAN_OPTIONS": "detect_leaks=1:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=1"})
        e.update(env or {})
        with open(out, "w") as f:
            try:
                p = subprocess.run([exe] + [str(a) for a in args], stdout=f, stderr=subprocess.PIPE, stdin=stdin, timeout=timeout, env=e, cwd=cwd or self.work, preexec_fn=limits)
                rc, err = p.returncode, p.stderr.decode("utf-8", "replace")
            except subprocess.TimeoutExpired as t:
                rc, err = "timeout", (t.stderr or b"").decode("utf-8", "replace")
        data = open(out, "rb").read().decode("utf-8", "replace")
        os.unlink(out)
        lines = data.split("\n")
        partial = lines.pop() if lines else ""
        lines = [x for x in lines if x]
        if rc != 0:
            if rc == 97:
                raise CheckError("driver %s reports an internal problem: %s" % (name, err[-3000:]))
            lines.append(json.dumps({"op": "crash", "rc": str(rc), "args": " ".join(map(str, args)), "partial": partial[-300:],
                                     "stderr": err[-1500:]}))
        elif partial:
            raise CheckError("driver %s: truncated output" % name)
        return lines

    # ----------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, trace=None, env=None, heap="1500m", timeout=800, workers=1, extra=(), defs=None):
        r = TlcResult()
        self.n_tlc += 1
        md = os.path.join(self.work, "tlc%d_%d" % (self.n_tlc, int(time.time() * 1e6) % 10**9))
        os.makedirs(md)
        e = dict(os.environ)
        e["TMPDIR"] = md
        if trace is not None:
            e["TRACE"] = trace
        e.update(env or {})
        gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
        cmd = ["java", gc, "-Xss64m", "-Xmx" + heap, "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + md, "-cp", CP, "tlc2.TLC", "-metadir", md,
               "-noGenerateSpecTE", "-nowarning", "-workers", str(workers), "-config", (cfg or module) + ".cfg"] + list(extra) + [module + ".tla"]
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            r.out = p.stdout.decode("utf-8", "replace")
            rc = p.returncode
        except subprocess.TimeoutExpired as x:
            raise CheckError("TLC timeout on %s" % module)
        finally:
            shutil.rmtree(md, ignore_errors=True)
        r.wall = time.time() - t
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", r.out)
        if m:
            r.transitions, r.states = int(m.group(1)), int(m.group(2))
        for m in re.finditer(r'<<\s*"REJECT",\s*(\d+)', r.out):
            r.rejects.append(int(m.group(1)))
        r.ok = rc == 0 and "No error has been found" in r.out
        if not r.ok:
            keep = [x for x in r.out.split("\n") if not x.startswith(("Parsing file", "Semantic proc"))]
            at = next((i for i, x in enumerate(keep) if "Error" in x), max(0, len(keep) - 40))
            r.error = "\n".join(x[:800] for x in keep[at:at + 40])
        return r

    def model(self, module, cfg=None, workers=4, heap="4g", timeout=800, extra=(), min_states=2, env=None):
        """Exhaustive exploration of a specification; a failure is an error of the specification."""
        r = self.tlc(module, cfg, workers=workers, heap=heap, timeout=timeout, extra=extra, env=env)
        if not r.ok:
            raise CheckError("model %s/%s fails: %s" % (module, cfg, r.error))
        if r.states < min_states:
            raise CheckError("model %s/%s is vacuous: %d states" % (module, cfg, r.states))
        self.states += r.states
        self.transitions += r.transitions
        self.notes.setdefault("models", []).append(
            {"module": module, "cfg": cfg or module, "states": r.states, "transitions": r.transitions, "wall_s": round(r.wall, 1)})
        self.log("model %s/%s: %d states, %d transitions, %.1fs" % (module, cfg or module, r.states, r.transitions, r.wall))
        return r

    def _shards(self, lines, n, weight=None):
        """Splits at {"op":"reset"} if the trace has any, else anywhere; balances by weight."""
        groups, cur = [], []
        stateful = any('"op":"reset"' in x[:40] for x in lines[:5])
        for x in lines:
            if (not stateful) or '"op":"reset"' in x[:40]:
                if cur:
                    groups.append(cur)
                cur = []
            cur.append(x)
        if cur:
            groups.append(cur)
        w = weight or (lambda x: 1 + len(x) // 100)
        sized = sorted(((sum(w(x) for x in g), i, g) for i, g in enumerate(groups)), key=lambda t: (-t[0], t[1]))
        bins = [[0, []] for _ in range(max(1, min(n, len(groups))))]
        import heapq
        h = [(0, i) for i in range(len(bins))]
        for s, _, g in sized:
            tot, i = heapq.heappop(h)
            bins[i][1].append(g)
            heapq.heappush(h, (tot + s, i))
        return [[x for g in b[1] for x in g] for b in bins if b[1]], len(groups)

    def validate(self, module, lines, cfg=None, label="", weight=None, heap="1700m", regen=None, shards=None, timeout=850, env=None,
                 count_traces=None, describe=None):
        """Lets TLC judge every trace line. A module prints <<"REJECT", l>> for each line (or, for
        histories, the first line) the specification does not accept, and consumes all lines."""
        if not lines:
            raise CheckError("empty trace for " + module)
        # An abnormal end of the code under test is an event no specification has an action for.
        crashes = [x for x in lines if x.startswith('{"op": "crash"') or x.startswith('{"op":"crash"')]
        body = [x for x in lines if x not in crashes] if crashes else lines
        for c in crashes:
            rec = json.loads(c)
            self.reject(module, rec, "the code under test ended abnormally (%s %s)" % (rec.get("rc"), rec.get("args")), label)
        if not body:
            return []
        parts, ngroups = self._shards(body, shards or NPROC, weight)
        n = len(os.listdir(self.work))

        def one(ip):
            i, part = ip
            f = os.path.join(self.work, "tr_%s_%s_%d_%d.ndjson" % (module, label or "t", n, i))
            with open(f, "w") as fh:
                fh.write("\n".join(part) + "\n")
            r = self.tlc(module, cfg, trace=f, heap=heap, timeout=timeout, env=env)
            if r.ok and r.rejects:  # only report what a second run repeats
                r2 = self.tlc(module, cfg, trace=f, heap=heap, timeout=timeout, env=env)
                if sorted(set(r2.rejects)) != sorted(set(r.rejects)):
                    raise CheckError("TLC rejections not repeatable in " + module)
            os.unlink(f)
            return r, part
        rejected = []
        for r, part in list(self.ex.map(one, enumerate(parts))):
            if not r.ok:
                bad = garbled(part)
                if bad:  # drivers write JSON; memory of theirs was overwritten
                    for x in bad[:3]:
                        self.reject(module, {"op": "garbled", "line": x[:600]}, "the driver's memory was overwritten by the code under test", label)
                    continue
                raise CheckError("trace specification %s fails to evaluate (%s): %s" % (module, label, r.error))
            if "TRACE_CONSUMED" not in r.out:
                raise CheckError("trace specification %s did not consume its trace: %s" % (module, r.out[-2000:]))
            self.states += r.states
            self.transitions += r.transitions
            for l in sorted(set(r.rejects)):
                lo = l - 1
                if '"op":"reset"' in "".join(part[:1])[:40]:
                    while lo > 0 and '"op":"reset"' not in part[lo][:40]:
                        lo -= 1
                rejected.append((json.loads(part[l - 1]), [json.loads(x) for x in part[lo:l]] if lo < l - 1 else None))
        self.traces += count_traces if count_traces is not None else ngroups
        self.log("%s%s: %d events in %d traces, %d rejected" % (module, "/" + label if label else "", len(body), ngroups, len(rejected)))
        if body and len(self.samples) < 6:
            self.samples.append(json.loads(body[len(body) // 2]) if len(body[len(body) // 2]) < 3000 else body[len(body) // 2][:600])
        for rec, hist in rejected:
            self.reject(module, rec, "specification %s does not accept this event" % module, label, hist)
        return rejected

    # ------------------------------------------------------------ verdicts
    def reject(self, module, rec, why, label="", hist=None):
        for f in self.findings:
            if subset(f["match"], rec):
                if f not in self.known:
                    self.known.append(f)
                return
        self.violations.append({"module": module, "label": label, "why": why, "event": rec, "history": hist})

    def finish(self, level="model_checking", coverage=None):
        wall = time.time() - self.t0
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "samples": self.samples or ["none"]},
              "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.violations)}
        ev["coverage"].update(self.notes)
        ev["coverage"].update(coverage or {})
        ev["coverage"]["known_findings_seen"] = [f["id"] for f in self.known]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        for f in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]))
        if self.violations:
            d = os.path.join(VERIF, "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s.json" % (self.prop, self.tier))
            with open(path, "w") as f:
                json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "count": len(self.violations),
                           "how": "VERIF_SEED=%d bin/check %s --tier %s" % (self.seed, self.prop, self.tier),
                           "violations": self.violations[:20]}, f, indent=1)
            for v in self.violations[:3]:
                print("  rejected:", v["module"], v["label"], json.dumps(v["event"])[:600])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        self.log("OK: states=%d transitions=%d traces=%d" % (self.states, self.transitions, self.traces))
        return 0


def garbled(lines):
    bad = []
    for x in lines:
        try:
            json.loads(x)
        except ValueError:
            bad.append(x)
    return bad


def subset(match, rec):
    return all(k in rec and (subset(v, rec[k]) if isinstance(v, dict) and isinstance(rec[k], dict) else rec[k] == v) for k, v in match.items())


def load_findings(prop):
    res = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: "):
                f = json.loads(line[len("finding: "):])
                if f["property"] == prop:
                    res.append(f)
    return res


def main(registry):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    a = ap.parse_args()
    if a.prop not in registry:
        print("no check for", a.prop)
        sys.exit(2)
    c = Check(a.prop, a.tier, a.seed)
    try:
        rc = registry[a.prop](c)
        if rc is None:
            rc = c.finish()
        sys.exit(rc)
    except CheckError as e:
        print("CHECK ERROR:", e)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
    shutil.rmtree(c.work, ignore_errors=True)
    sys.exit(2)
