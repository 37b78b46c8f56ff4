import random, multiprocessing
import drv, vf, gen
from fractions import Fraction as F
from math import lcm
from c23 import num, potential
BIG = 1 << 30
def text(c): return f"{c['s']}>{c['t']} {F(c['w']).limit_denominator(10 ** 6)} {F(c['d']).limit_denominator(10 ** 6)} {c['id']}"
def circuit(n, es, ok, m, den):
    """a circuit whose edges satisfy ok and whose ratio is m: witness for TLC, found among the tight edges"""
    pot = potential(n, es, den, m, 1)
    tight = [k for k, (s, t, w, d) in enumerate(es) if ok(k) and pot[t - 1] - pot[s - 1] == w * m["den"] - m["num"] * den * d]
    out = {}
    for k in tight: out.setdefault(es[k][0], []).append(k)
    color = {}
    for r in list(out):
        if r in color: continue
        path = []; stack = [(r, iter(out.get(r, [])))]; color[r] = 1
        while stack:
            v, it = stack[-1]; k = next(it, None)
            if k is None:
                color[v] = 2; stack.pop(); path = path[:-1]; continue
            t = es[k][1]
            if color.get(t) == 1:
                j = [x[0] for x in stack].index(t); return path[j:] + [k]
            if t not in color: color[t] = 1; path.append(k); stack.append((t, iter(out.get(t, []))))
    return []
def frac(v):
    f = num(v); return dict(num=f.numerator, den=f.denominator) if f is not None else dict(num=0, den=0)
def step(s, pos):
    g = s["g"]; evs = sorted({tuple(e) for e in g["events"]}); ix = {e: k + 1 for k, e in enumerate(evs)}
    d = dict(k=s["k"], ge=[str(e) for e in g["events"]], fe=[str(e) for e in s["fresh"]["events"]], gc=[text(c) for c in g["cons"]], fc=[text(c) for c in s["fresh"]["cons"]],
             ce=[pos[x] for x in s["ce"]], cch=sorted({pos[c["id"]] for c in s["circuit"] if c["id"]}), num=False, e=[], den=1, ratio=frac(s["ratio"]), thr=frac(s["thr"]), circuit=[], pot=[], wit=[])
    ws = [F(c["w"]).limit_denominator(10 ** 5) for c in g["cons"]]; ds = [num(c["d"]) for c in g["cons"]]
    if any(x is None or x.denominator != 1 for x in ds) or d["ratio"]["den"] == 0 or not s["circuit"]: return d
    den = lcm(*[w.denominator for w in ws]) if ws else 1
    if den > 5000: return d
    es = [(ix[tuple(c["s"])], ix[tuple(c["t"])], int(w * den), int(x)) for c, w, x in zip(g["cons"], ws, ds)]
    m = d["ratio"]
    if any(abs(w * m["den"]) + abs(m["num"] * den * x) > BIG // max(4, len(evs)) for _, _, w, x in es): return d
    at = {text(c): k for k, c in enumerate(g["cons"])}
    ce = set(s["ce"]) | {0}
    d.update(num=True, den=den, e=[dict(s=a, t=b, w=w, d=x, id=pos[c["id"]]) for (a, b, w, x), c in zip(es, g["cons"])], pot=potential(len(evs), es, den, m, 1),
             circuit=[at[text(c)] + 1 for c in s["circuit"]], wit=[k + 1 for k in circuit(len(evs), es, lambda k: g["cons"][k]["id"] in ce, m, den)])
    return d
def rec(g, r):
    ok = r["status"] == "ok"; ts = [t["id"] for t in g.tasks]
    if ok and sum(len(s["g"]["cons"]) for s in r["out"]["steps"]) > 4000: return None
    pos = dict({c["id"]: k + 1 for k, c in enumerate(g.chans)}); pos[0] = 0
    return dict(ok=ok, done=r["out"]["done"] if ok else False, n=[g.q[t] for t in ts], src=[ts.index(c["src"]) + 1 for c in g.chans], dst=[ts.index(c["dst"]) + 1 for c in g.chans], steps=[step(s, pos) for s in r["out"]["steps"]] if ok else [])
FAM = [dict(n=3, maxq=6, maxph=1, strongly=True), dict(n=4, qs=[1, 2, 3, 4, 6], maxph=2, strongly=True, extra=3), dict(), dict(maxph=3, init=.5), dict(qs=[1, 2, 4, 6, 12], maxph=1, strongly=True, extra=2, tight=.6), dict(reent0=.4, strongly=True, maxph=1, maxq=5)]
# where the search refines several times, and the same task more than once: rare, so many are generated and only scanned
DEEP = [dict(n=6, qs=[1, 2, 3, 4, 6], maxph=2, strongly=True, extra=6, tight=.8, maxdur=30), dict(n=6, qs=[1, 2, 4, 6, 12], maxph=1, strongly=True, extra=7, tight=.8, maxdur=30), dict(n=7, qs=[1, 2, 3, 4, 6], maxph=2, strongly=True, extra=10, tight=.9, maxdur=60),
        dict(n=6, qs=[6, 12, 4, 8, 24], maxph=2, strongly=True, extra=6, tight=.8, maxdur=30), dict(n=4, qs=[2, 3, 4, 6, 12], maxph=3, strongly=True, extra=3, tight=.7)]
def part(a):
    seed, lo, hi = a; rng = random.Random(seed); out = []
    for k in range(lo, hi): out.append(gen.random_graph(rng, **dict(dict(zero_dur=False), **(FAM[k % len(FAM)] if k % 6 == 0 else DEEP[k % len(DEEP)]))))
    return out
def text_of(i, g, **a): return drv.case_text(i, g, dict(mode="refine", **a))
def again(ks): return sum(1 for a, b in zip(ks, ks[1:]) if any(1 < x < y for x, y in zip(a, b)))
def check(c):
    exe = c.driver("egraph"); total = c.n(24000, 200000); size = 500
    with multiprocessing.Pool(8) as p: gs = [g for l in p.map(part, [(f"{c.seed}-C22-{k}", k * size, (k + 1) * size) for k in range(total // size)]) for g in l]
    scan = drv.run(exe, [(f"g{k}", text_of(f"g{k}", g, steps=8, scan=1)) for k, g in enumerate(gs)], timeout=10)
    deep, few, bad = [], [], []
    for k in range(total):
        r = scan.get(f"g{k}")
        if not r or r["status"] != "ok": bad.append(k)
        elif again(r["out"]["steps"]): deep.append(k)
        elif len(r["out"]["steps"]) > 2 and len(few) < c.n(500, 8000): few.append(k)
    pick = deep[:c.n(500, 5000)] + few + bad[:40]; have = set(pick)
    pick += [k for k in range(0, total, 6) if k not in have][:c.n(1200, 12000)]
    c.notes.update(graphs_scanned=total, graphs_that_refine_a_task_again=len(deep), graphs_with_three_or_more_steps=len(few))
    def one(g, r):
        x = rec(g, r)
        if x and x["ok"]:
            for k, v in (("steps", len(x["steps"])), ("loops_that_refine", len(x["steps"]) > 1), ("steps_with_exact_numbers", sum(s["num"] for s in x["steps"]))): c.notes[k] = c.notes.get(k, 0) + int(v)
        return x
    vf.pipeline(c, "Refine", exe, [(f"g{k}", text_of(f"g{k}", gs[k], steps=8), gs[k]) for k in pick], one, "egraph")
