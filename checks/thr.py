"""Shared by the throughput checks: cases, conversion of printed answers."""
import re, gen, drv
from fractions import Fraction
from vf import frac
PAT = re.compile(r"[Tt]hroughput is\s+(\S+)")
def value(out, algo):
    m = PAT.findall(out.get(algo, ""))
    return m[-1] if m else None
def graphs(rng, count, limit=400, **kw):
    """graphs whose self-timed execution is short enough for TLC"""
    r = []
    while len(r) < count:
        k = dict(kw); mi = k.pop("mintasks", 1)
        g = gen.random_graph(rng, **k)
        if len(g.tasks) < mi: continue
        if any(len(t["dur"]) > 1 and not any(c["src"] == t["id"] or c["dst"] == t["id"] for c in g.chans) for t in g.tasks): continue
        e = gen.throughput(g, limit=limit)
        if e is None or e[1] > limit: continue
        r.append((g, e))
    return r
def _part(a):
    import random
    seed, count, limit, kw = a
    return graphs(random.Random(seed), count, limit, **kw)
def pool(c, name, count, limit=400, **kw):
    """like graphs(), generated by all processors (deterministic in the seed)"""
    from multiprocessing import Pool
    parts = 16; n = (count + parts - 1) // parts
    with Pool(8) as p: rs = p.map(_part, [(f"{c.seed}-{c.id}-{name}-{k}", n, limit, kw) for k in range(parts)])
    return [x for r in rs for x in r]
def off(algos):
    """steering only: does a recorded answer differ from the generator's estimate?"""
    def f(x, r):
        g, e = x[0], x[1]
        if r["status"] != "ok": return True
        for a, (rel, den, ab) in algos.items():
            v = frac(value(r["out"], a), den, max(6e-9, ab / 100), ab)
            if v[1] <= 0: return True
            w = Fraction(*v)
            if (rel == "eq" and w != e[0]) or (rel == "le" and w > e[0]) or (rel == "ge" and w < e[0]): return True
        return False
    return f
def rec(g, r, algos, cap=(), extra=None):
    
    ans = []
    for a, (rel, den, ab) in algos.items():
        v = value(r["out"], a) if r["status"] == "ok" else None
        ans.append(dict(who=a, rel=rel, v=frac(v, den, max(6e-9, ab / 100), ab)))
    d = dict(graph=g.js(), q=[g.q[t["id"]] for t in g.tasks], cap=list(cap), ans=ans)
    if extra: d.update(extra)
    return d
