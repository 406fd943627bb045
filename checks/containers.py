"""C*: bounded containers."""


def c01(c):
    jobs = [dict(name="lv", srcs=["limited_vector.cc"], shim=True, asan=True, ct=True, gen=c.gen_headers(throws=True)),
            dict(name="lv_die", srcs=["limited_vector.cc"], shim=True, flags=["-DVF_THROWS=0"], gen=c.gen_headers(throws=False)),
            dict(name="lv_clang", srcs=["limited_vector.cc"], shim=True, ct=True, gen=c.gen_headers(throws=True), cxx="clang++")]
    lv, die, clang = c.build_many(jobs)
    c.model("BoundedSeqMC", "BoundedSeqMCT" if c.thorough else "BoundedSeqMC", workers=8)
    runs = [(lv, "one"), (lv, "hist"), (lv, "misc"), (clang, "misc"), (clang, "hist"), (die, "over")]
    outs = list(c.ex.map(lambda r: c.drive(r[0], [r[1], c.seed + (r[0] == clang), c.tier]), runs))
    c.validate("BoundedSeqTrace", [x for o in outs for x in o], weight=len)


def ordered(c, cfgs, die_cfgs, clang_cfgs):
    """cfgs: {VF_CFG: unroll}"""
    t, f = c.gen_headers(throws=True), c.gen_headers(throws=False)
    gens = {u: c.gen_headers(throws=True, unroll=u) for u in set(cfgs.values())}
    jobs = [dict(name="lo%d" % n, srcs=["limited_ordered.cc"], shim=True, asan=True, flags=["-DVF_CFG=%d" % n], gen=gens[u]) for n, u in cfgs.items()]
    jobs += [dict(name="lo%d_die" % n, srcs=["limited_ordered.cc"], shim=True, flags=["-DVF_CFG=%d" % n], gen=f) for n in die_cfgs]
    jobs += [dict(name="lo%d_clang" % n, srcs=["limited_ordered.cc"], shim=True, flags=["-DVF_CFG=%d" % n], gen=t, cxx="clang++") for n in clang_cfgs]
    jobs += [dict(name="lo_misc", srcs=["limited_ordered.cc"], shim=True, ct=True, flags=["-DVF_CFG=9"], gen=t)]
    exes = c.build_many(jobs)
    runs = []
    for e in exes:
        if e.endswith("misc"):
            runs += [(e, "misc")]
        elif e.endswith("_die"):
            runs += [(e, "over")]
        else:
            runs += [(e, m) for m in ("one", "query", "hist")]
    outs = list(c.ex.map(lambda r: c.drive(r[0], [r[1], c.seed + r[0].endswith("clang"), c.tier], timeout=600), runs))
    c.model("BoundedMapMC", "BoundedMapMCT" if c.thorough else "BoundedMapMC", workers=8)
    c.validate("BoundedMapTrace", [x for o in outs for x in o], weight=len)


def c02(c):
    ordered(c, {0: 16, 1: 16, 2: 16, 3: 16, 4: 16, 5: 32, 6: 4}, [0, 1, 3, 4], [1, 3] + c.pick([], [0, 2, 4]))


def c03(c):
    ordered(c, {10: 16, 11: 16, 12: 16, 13: 16, 14: 16, 15: 16, 16: 32, 17: 4}, [10, 12, 15], [12] + c.pick([], [10, 11, 13, 14, 15]))


def c04(c):
    lv, lo = c.build_many([dict(name="lv", srcs=["limited_vector.cc"], shim=True, asan=True),
                           dict(name="lo", srcs=["limited_ordered.cc"], shim=True, asan=True, flags=["-DVF_CFG=8"])])
    c.model("Lifetimes", workers=4)
    outs = list(c.ex.map(lambda e: c.drive(e, ["life", c.seed, c.tier], timeout=600), [lv, lo]))
    c.validate("LifeTrace", outs[0] + outs[1], weight=len)


def c05(c):
    jobs = [dict(name="scan%d" % n, srcs=["scan.cc"], shim=True, asan=True, flags=["-DVF_SET=%d" % n]) for n in range(3)]
    jobs += [dict(name="scan%d_clang" % n, srcs=["scan.cc"], shim=True, flags=["-DVF_SET=%d" % n], cxx="clang++") for n in c.pick([0], range(3))]
    exes = c.build_many(jobs)
    c.model("Scans")
    outs = list(c.ex.map(lambda e: c.drive(e, [c.seed + e.endswith("clang"), c.tier]), exes))
    c.validate("ScanTrace", [x for o in outs for x in o], weight=len)


CHECKS = {"C05": c05, "C01": c01, "C02": c02, "C03": c03, "C04": c04}
NOTES = {
    "C05": ("TLA+ machine of scans with several iterators model-checked by TLC; recorded loops and iterator histories of real scans, and container conversions, replayed on it", "Referencing, constant and converting scans over 14 kinds of containers and initializer lists (lvalue, const and owned), three iterators per history; conversions between 20 pairs of containers with and without functions, the source inspected afterwards."),
    "C02": ("TLA+ machine of bounded sorted sets model-checked by TLC; every lookup and every single operation from states of every size, and random histories of the real sets replayed on it", "Capacities 0..33 on both sides of the unrolling limits 4, 16 and 32, all tuning options, seven comparators (transparent, three-way, reversed, stateful), int and string keys; refusals by exception and by termination."),
    "C03": ("TLA+ machine of bounded sorted maps model-checked by TLC; every lookup and every single operation from states of every size, and random histories of the real maps replayed on it", "Capacities 0..32 on both sides of the unrolling limits 4, 16 and 32, all tuning options, seven comparators, int and string keys and values; refusals by exception and by termination."),
    "C01": ("TLA+ machine of bounded sequences model-checked by TLC; every single operation from every small state, random histories, constant evaluation and capacity refusals of the real vector replayed on it", "All operations and argument positions from all sizes of capacities 0..4 (int and heap strings); histories at capacities to 17; refusal by exception and by termination; both compilers."),
    "C04": ("TLA+ machine of object lives model-checked by TLC; recorded constructions, copies, moves, assignments, uses and destructions of every element replayed on it", "Every operation from every small state and random histories over containers of recording elements; after each step exactly the first size() places of a container hold living objects."),
}
