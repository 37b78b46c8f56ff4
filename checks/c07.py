from fractions import Fraction
import thr, drv, vf
NAMES = ["SPeriodicThroughput", "ASPeriodicThroughput", "1PeriodicThroughput", "2PeriodicThroughput", "KPeriodicThroughput", "EG1", "LP1", "REALLP1"]
AUTO = ["SPeriodicThroughput", "ASPeriodicThroughput", "REALLP1", "1PeriodicThroughput", "2PeriodicThroughput", "KPeriodicThroughput", "NKPeriodicThroughput", "EG1", "EGN", "LP1", "LPN"]
INIT = ["1PeriodicThroughput", "2PeriodicThroughput", "KPeriodicThroughput", "NKPeriodicThroughput", "EG1", "EGN"]   # the others do not model initial phases
def num(s):
    if s is None or "nan" in s.lower(): return [1, 0]
    return vf.frac(s)
def record(x, r):
    g, ks, names, e = x
    ok = r["status"] == "ok"
    ans = []; ix = {}
    for n in names:
        v = thr.value(r["out"], n) if ok else None
        ix[n] = len(ans) + 1; ans.append(dict(who=n, rel="le", v=num(v)))
    for j, k in enumerate(ks):
        ix["V%d" % (j + 1)] = len(ans) + 1
        ans.append(dict(who="K" + ",".join(map(str, k)), rel="le", v=num(r["out"]["thr"][j] if ok else None)))
    P = lambda l: [[ix[a], ix[b]] for a, b in l if a in ix and b in ix]
    S, P1, P2, K = "SPeriodicThroughput", "1PeriodicThroughput", "2PeriodicThroughput", "KPeriodicThroughput"
    order = P([(S, P1), ("ASPeriodicThroughput", P1), (P1, P2), (P1, K), (P2, K), ("V1", "V2"), ("V3", "V4"), ("V3", "V5"), (P1, "NKPeriodicThroughput"), ("V3", "NKPeriodicThroughput"), ("V3", K)])
    if names is INIT: order = P([(P1, P2), (P1, K), ("V1", "V2"), ("V3", "V4"), ("V3", "V5"), (P1, "NKPeriodicThroughput")])
    same = P(([] if names is AUTO else [(P1, "LP1"), (S, "REALLP1")]) + [(P1, "EG1"), (P1, "V1"), (P2, "V2"), ("NKPeriodicThroughput", "EGN")])
    return dict(graph=g.js(), q=[g.q[t["id"]] for t in g.tasks], cap=[], ans=ans, order=order, same=same)
def off(x, r):
    """steering only"""
    if r["status"] != "ok": return True
    g, ks, names, e = x; d = record(x, r)
    v = [None if a["v"][1] <= 0 else Fraction(*a["v"]) for a in d["ans"]]
    if any(w is None or w > e[0] for w in v): return True
    return any(v[a - 1] > v[b - 1] for a, b in d["order"]) or any(v[a - 1] != v[b - 1] for a, b in d["same"])
def check(c):
    exe = c.driver("ksched")
    for name, n, keep, kw in [("mixed", 700, 110, dict(limit=400)), ("strong", 700, 110, dict(limit=500, strongly=True)),
                        ("init", 800, 100, dict(limit=500, strongly=True, init=0.4)), ("multirate", 500, 60, dict(limit=500, strongly=True, maxq=6, maxph=2)),
                        ("auto", 600, 40, dict(limit=500, strongly=True, maxph=1, reent0=0.5)),
                        ("circuits", 700, 20, dict(qs=[1, 2, 3, 4, 6], maxph=1, strongly=True, extra=3, n=4, limit=900, tight=0.6)),
                        ("wide", 200, 15, dict(n=9, maxq=2, maxph=2, limit=800)), ("phased", 200, 15, dict(n=3, maxph=8, maxq=2, limit=800)), ("rates", 200, 15, dict(n=3, qs=[3, 5, 7, 8], maxph=2, limit=1200)),
                        ("zero", 600, 50, dict(limit=500, strongly=True, zero_dur=True, idle=.3)), ("zeros", 400, 30, dict(limit=500, qs=[1, 2, 3, 4], maxph=2, zero_dur=True)),
                        ("zeroinit", 400, 30, dict(limit=500, strongly=True, init=0.4, zero_dur=True))]:     # firings that take no time: live graphs only
        rng = c.sub(name); gs = thr.pool(c, name, c.n(n, n * 10), **dict(dict(zero_dur=False), **kw))
        if kw.get("zero_dur"): gs = [x for x in gs if x[1][0] > 0]
        names = INIT if "init" in kw else AUTO if "reent0" in kw else NAMES
        cases = []
        for i, (g, e) in enumerate(gs):
            k = [rng.randint(1, 4) for _ in g.tasks]; m = rng.randint(2, 3)
            ks = [[1] * len(k), [2] * len(k), k, [m * x for x in k], [x * rng.randint(1, 3) for x in k]]
            cases.append((f"{name}{i}", drv.case_text(f"{name}{i}", g, {"algo": " ".join(names)}, [" ".join(map(str, v)) for v in ks]), (g, ks, names, e)))
        vf.pipeline(c, "Policies", exe, cases, record, "ksched", pre=(c.n(keep, keep * 12), off))
