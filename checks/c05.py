from fractions import Fraction
import re, thr, drv, vf, gen
A = "SymbExecDebug"
def graphs(rng, count, limit, **kw):
    r = []
    while len(r) < count:
        g = gen.random_graph(rng, **dict(dict(zero_dur=False, selfloop=0.2), **kw))
        if not g.chans or any(len(t["dur"]) > 1 and not any(t["id"] in (c["src"], c["dst"]) for c in g.chans) for t in g.tasks): continue
        if not connected(g): continue
        g.chans.sort(key=lambda c: c["id"])
        for k, c in enumerate(g.chans): c["id"] = k + 1; c["name"] = "c%d" % (k + 1)
        caps = {}
        for c in g.chans:
            lo = max(c["m0"], max(c["pp"] + c["cp"]))
            caps[c["id"]] = lo + rng.choice([0, 0, 1, 2, 3, sum(c["pp"]), sum(c["pp"]) + sum(c["cp"])])
            if rng.random() < .08: caps[c["id"]] = max(c["m0"], 1)   # often too small: deadlock
        e = gen.throughput(g, caps=caps, limit=limit)
        if e is None: continue
        r.append((g, caps, e))
    return r
def connected(g):
    s = {g.tasks[0]["id"]}; ch = True
    while ch:
        n = s | {x for c in g.chans for x in (c["src"], c["dst"]) if c["src"] in s or c["dst"] in s}
        ch = n != s; s = n
    return len(s) == len(g.tasks)
def records(x, r):
    g, caps, e0 = x; cap = [caps[c["id"]] for c in g.chans]
    a = [thr.rec(g, r, {A: ("eq", 20000, 6e-10)}, cap)]
    if r["status"] != "ok": return a
    deps = {int(i) for i in re.findall(r"Channel (\d+) \(name", r["out"][A])}
    # enlarging everything that is not reported as a storage dependency must not help
    c2 = {i: (v if i in deps else v + 60) for i, v in caps.items()}
    if c2 != caps:
        e = gen.throughput(g, caps=c2, limit=3000)
        if e is not None: a.append(thr.rec(g, r, {A: ("ge", 20000, 6e-10)}, [c2[c["id"]] for c in g.chans]))
    return a
def part(a):
    import random
    seed, count, kw = a
    return graphs(random.Random(seed), count, **kw)
def off(x, r):
    """steering only: the generator's estimate differs for one of the recorded answers"""
    g, caps, e = x
    if r["status"] != "ok": return True
    v = Fraction(*vf.frac(thr.value(r["out"], A), 20000, 6e-9, 6e-10))
    if v != e[0]: return True
    deps = {int(i) for i in re.findall(r"Channel (\d+) \(name", r["out"][A])}
    c2 = {i: (q if i in deps else q + 60) for i, q in caps.items()}
    e2 = gen.throughput(g, caps=c2, limit=3000)
    return e2 is not None and e2[0] > e[0]
def check(c):
    from multiprocessing import Pool
    exe = c.driver("analyse")
    for name, n, keep, kw in [("mixed", 1200, 200, dict(limit=400)), ("multirate", 800, 90, dict(limit=500, maxq=5)), ("large", 500, 60, dict(limit=900, n=5, maxq=2)), ("phases", 600, 60, dict(limit=500, maxph=4, n=3)),
                               ("wide", 200, 15, dict(limit=900, n=8, maxq=2, maxph=2)), ("phased", 200, 15, dict(limit=900, n=3, maxph=8, maxq=2)), ("rates", 200, 15, dict(limit=1200, n=3, qs=[3, 5, 7, 8], maxph=1)),
                               ("zero", 500, 50, dict(limit=500, zero_dur=True, strongly=True, idle=.3))]:     # with firings that take no time
        n = c.n(n, n * 10)
        with Pool(8) as p: gs = [x for r in p.map(part, [(f"{c.seed}-{c.id}-{name}-{k}", (n + 15) // 16, kw) for k in range(16)]) for x in r]
        cases = [(f"{name}{k}", drv.case_text(f"{name}{k}", x[0], {"algo": A, "P_SD": ",".join(str(x[1][h["id"]]) for h in x[0].chans), "P_SYMB_EXEC_CORRECTED": 1}), x)
                 for k, x in enumerate(gs)]
        vf.pipeline(c, "Throughput", exe, cases, records, "analyse", pre=(c.n(keep, keep * 12), off))
