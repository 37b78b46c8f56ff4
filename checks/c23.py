import drv, vf
from fractions import Fraction as F
def timed(n, es):
    """a circuit that takes time exists"""
    to = {v: {v} for v in range(1, n + 1)}
    for _ in range(n):
        for s, t, w, d in es:
            for v in to:
                if s in to[v]: to[v].add(t)
    return any(d and s in to[t] for s, t, w, d in es)
def cyclic(n, es):
    left = set(range(1, n + 1))
    while True:
        gone = {v for v in left if not any(e[0] == v and e[1] in left for e in es)}
        if not gone: return bool(left)
        left -= gone
def ratio(n, es, den):
    """smallest ratio of a circuit (estimate used to choose feasible periods): parametric Bellman-Ford"""
    best = None
    def better(r):
        dist = [F(0)] * (n + 1); pre = [None] * (n + 1); x = None
        for _ in range(n + 1):
            x = None
            for k, (s, t, w, d) in enumerate(es):
                c = dist[s] + F(w, den) - (r * d if r is not None else 0)
                if c < dist[t]: dist[t] = c; pre[t] = k; x = t
            if x is None: return None
        for _ in range(n): x = es[pre[x]][0]
        W = D = 0; y = x
        while True:
            s, t, w, d = es[pre[y]]; W += w; D += d; y = s
            if y == x: return F(W, den * D) if D else None
    r = F(sum(abs(e[2]) for e in es) + 1, den)
    while True:
        b = better(r)
        if b is None: return r
        r = b
def num(x):
    if x in ("inf", "-inf", "nan"): return None
    v = F(x); g = v.limit_denominator(100000)
    return g if abs(g - v) < F(1, 10 ** 12) else None
def opt(v, c):
    f = num(v)
    return dict(kind="infinite" if v == "inf" else "value" if f is not None else "other", num=f.numerator if f is not None else 0, den=f.denominator if f is not None else 0, c=[x["id"] for x in c])
def potential(n, es, den, m, sign):
    """witness for TLC: smallest distances with lengths w - ratio d (negated for the largest ratio)"""
    dist = [0] * (n + 1)
    for _ in range(n + 1):
        for s, t, w, d in es:
            l = sign * (w * m["den"] - m["num"] * den * d)
            if dist[s] + l < dist[t]: dist[t] = dist[s] + l
    return [sign * x for x in dist[1:]]
def rec(x, r):
    n, es, den, om, idle = x
    ok = r["status"] == "ok"; o = r["out"]
    d = dict(ok=ok, n=n, e=[dict(s=a, t=b, w=w, d=d) for a, b, w, d in es], den=den, cyclic=timed(n, es) if idle else cyclic(n, es), idle=idle, starts=[])
    no = dict(kind="other", num=0, den=0, c=[])
    d["min"] = opt(o["min"], o["minc"]) if ok else no; d["max"] = opt(o["max"], o["maxc"]) if ok else no
    d["large"] = n > 6 and d["cyclic"]
    d["minpot"] = potential(n, es, den, d["min"], 1) if d["large"] else []; d["maxpot"] = potential(n, es, den, d["max"], -1) if d["large"] else []
    for w, s in zip(om, o["starts"] if ok else []):
        st = []
        for v in s["st"]:
            f = num(v); k = round(f) if f is not None else 0
            st.append(k if f is not None and abs(f - k) < F(1, 10 ** 9) else -1)
        d["starts"].append(dict(p=(w // den if w != "inf" else 0), infinite=w == "inf", ok=s["ok"], st=st))
    return d
def graph(rng, large, idle=False):
    n = rng.randint(7, 24) if large else rng.randint(1, 6); den = rng.choice([1, 1, 1, 2, 3, 4, 5, 6, 7, 12]); big = rng.choice([3, 6, 12, 40]); es = []
    neg = not idle and rng.random() < .25; sink = rng.random() < .3
    for _ in range(rng.randint(n, 4 * n) if large else rng.randint(1, min(14, 3 * n))):
        s, t = rng.randint(1, n), rng.randint(1, n)
        if sink and s == n: s = rng.randint(1, n)
        d = 0 if idle and rng.random() < .5 or s < t and rng.random() < .25 else rng.randint(1, big)
        w = rng.randint(-big // 3, big) if neg else rng.choice([0, 0, 1, 1, 2, rng.randint(0, big)])
        es.append((s, t, w, d))
    if rng.random() < .1: es = [(min(s, t), max(s, t), w, d) for s, t, w, d in es if s != t] or [(1, 1, 1, 1)]
    return n, es, den
def check(c):
    exe = c.driver("egraph"); cases = []
    for k in range(c.n(3600, 48000)):
        idle = k >= c.n(3000, 40000); n, es, den = graph(c.rng, k % 3 == 0, idle); om = []
        if idle and not timed(n, es): continue
        r = ratio(n, es, den) if cyclic(n, es) else F(1, 5)
        if r > 0:
            p = 1 / r; m = -(-p // den) * den      # feasible periods: start times are then whole numbers
            om = [int(m), int(m) + den * c.rng.randint(1, 5), "inf"]
        i = f"e{k}"
        cases.append((i, drv.case_text(i, None, dict(mode="ratio", n=n, omegas=" ".join(map(str, om))), [f"{s} {t} {w} {den} {d}" for s, t, w, d in es]), (n, es, den, om, idle)))
    vf.pipeline(c, "CycleRatio", exe, cases, rec, "egraph")
