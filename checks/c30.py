"""C30: the bufferless network-on-chip flow keeps the flows that share a link of a router apart, and nothing else changes."""
import os, shutil
from fractions import Fraction
from math import lcm
import drv, vf, gen
EMPTY = dict(tasks=[dict(name="none", reent=1, init=[], dur=[0], ins=[])], chans=[])
def graph(d):
    ix = {t["id"]: k + 1 for k, t in enumerate(d["tasks"])}
    num = lambda x: int(float(x)) if float(x) == int(float(x)) else -1
    ch = [dict(name=c["name"], src=ix[c["src"]], dst=ix[c["dst"]], pi=c["pi"], pp=c["pp"], ci=c["ci"], cp=c["cp"], m0=c["m0"], ts=c["ts"]) for c in d["chans"]]
    return dict(tasks=[dict(name=t["name"], reent=t["reent"], init=[num(x) for x in t["init"]], dur=[num(x) for x in t["dur"]],
                            ins=[j + 1 for j, c in enumerate(ch) if c["dst"] == ix[t["id"]]]) for t in d["tasks"]], chans=ch)
def firings(g):
    """executions of every task in one iteration of a connected consistent graph (steering: the number of rounds that are executed)"""
    r = {1: Fraction(1)}; todo = [1]
    while todo:
        i = todo.pop()
        for c in g["chans"]:
            for a, b, x, y in ((c["src"], c["dst"], c["pp"], c["cp"]), (c["dst"], c["src"], c["cp"], c["pp"])):
                if a == i and b not in r and sum(y): r[b] = r[i] * sum(x) / sum(y); todo.append(b)
    if len(r) < len(g["tasks"]): return [1] * len(g["tasks"])
    m = 1
    for v in r.values(): m = lcm(m, v.denominator)
    q = {k: int(v * m) for k, v in r.items()}
    return [q[k + 1] * len(t["dur"]) for k, t in enumerate(g["tasks"])]
def rec(x, r):
    o = r["out"]; ok = r["status"] == "ok" and o.get("ends") == 1 and bool(o["end"]["tasks"])
    if not ok: return dict(ok=False, g=EMPTY, m=EMPTY, at=[0], routers=[], n=[1])
    g = graph(o["model"]); at = dict(map(tuple, o["map"]))
    return dict(ok=True, g=g, m=graph(o["end"]), at=[at.get(t["id"], -1) for t in o["model"]["tasks"]], routers=[a for a, t in o["nodes"] if t == 1], n=firings(g))
def groups(x, r):
    return dict(ok=r["status"] == "ok", adds=x, groups=r["out"].get("groups", []) if r["status"] == "ok" else [])
def check(c):
    exe = c.driver("bufless"); rng = c.rng
    g0 = gen.random_graph(rng, n=1, maxph=1); cases = []
    for k in range(c.n(500, 8000)):
        n = rng.randint(2, 9); two = rng.random() < .5
        keys = rng.sample(range(1, 200), n)
        a = keys[:n // 2] or keys; b = keys[n // 2:]
        adds = [[rng.choice(a if two else keys), rng.choice(b if two else keys), 1000 + j if rng.random() < .9 else 1000] for j in range(rng.randint(1, 12))]
        cases.append((f"g{k}", drv.case_text(f"g{k}", g0, dict(adds=" ".join(str(v) for x in adds for v in x))), adds))
    vf.pipeline(c, "Groups", exe, cases, groups, "bufless")
    tmp = os.path.join(vf.VERIF, ".build", f"tmp-c30-{os.getpid()}"); os.makedirs(tmp, exist_ok=True)
    try:
        cases = []
        for k in range(c.n(220, 3000)):
            kw = dict(parallel=.1) if k % 2 else dict(parallel=.4, extra=rng.randint(1, 4))
            g = gen.random_graph(rng, n=rng.randint(2, 4), maxph=1, maxq=2, dead=0, selfloop=0, **kw)
            if len(g.chans) > 7: continue
            th = gen.throughput(g)
            if not th or th[0] <= 0: continue
            x, y = rng.choice([(1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3)])
            a = dict(mesh=f"{x} {y}", seed=rng.randint(0, 10 ** 6), algos="randomMapping " + rng.choice(["xyRouting", "xyRouting", "randomRouting"]))
            i = f"f{k}"; cases.append((i, drv.case_text(i, g, a), g))
        vf.pipeline(c, "Flow", exe, cases, rec, "bufless", env=dict(KH_TMP=tmp), timeout=20)
    finally: shutil.rmtree(tmp, ignore_errors=True)
