import re, thr, drv, vf, gen
from math import gcd
from fractions import Fraction as F
def lcm(a, b): return a * b // gcd(a, b)
def exact(v):
    """the simplest fraction the printed double stands for, or None when it stands for no simple one"""
    f = F(v).limit_denominator(2000)
    return f if abs(f - F(v)) < F(1, 10**7) else None
def ticks(vals):
    """(scale, exact?) for a list of printed times"""
    L = 1
    for v in vals:
        f = exact(v)
        if f is None: return 10000, False
        L = lcm(L, f.denominator)
        if L > 5000: return 10000, False
    return L * max(1, 1000 // L), True
def records(x, r):
    """one record per schedule the library returned; a schedule without a positive finite period is a refusal"""
    g, lines, e = x; q = [g.q[t["id"]] for t in g.tasks]; res = []
    ok = r["status"] == "ok"
    for j, l in enumerate(lines):
        s = r["out"]["sched"][j] if ok else dict(omega="nan", tasks=[])
        bad = dict(graph=g.js(), q=q, scale=1, eps=0, omega=0, hyper=0, kind=l, sched=[])
        om = s["omega"]
        if not ok or "nan" in om: res.append(bad); continue
        if "inf" in om or float(om) <= 0:
            if l == "KP" and e[0] > 0 and not any(t["init"] for t in g.tasks): res.append(bad)     # the optimal scheduler may not refuse a live graph
            continue
        fin = lambda v: not re.search("n", v)
        vals = [om] + [v for sc in s["tasks"] for v in sc["is"] + sc["ps"] + [sc["p"]] if fin(v)]
        SC, ex = ticks(vals)
        N = lambda v: -1 if not fin(v) else int(round((exact(v) if ex else F(v)) * SC))
        om = exact(om) if ex else F(om)
        H = 1
        for t, sc in zip(g.tasks, s["tasks"]):
            f = F(max(1, len(sc["ps"])), g.q[t["id"]] * len(t["dur"])); H = lcm(H, f.numerator)
        sched = [dict(**{"is": [N(v) for v in sc["is"]]}, p=N(sc["p"]), ps=[N(v) for v in sc["ps"]]) for sc in s["tasks"]]
        size = float(om) * H * 2 + max([0] + [max([0] + d["ps"]) / SC + d["p"] / SC for d in sched])
        per = sum(q[i] * len(t["dur"]) for i, t in enumerate(g.tasks)) / float(om)
        if size > 20000 or size * per > 1500 or size * SC > 10**9 or max([0] + [d["p"] * len(t["dur"]) * q[i] for i, (d, t) in enumerate(zip(sched, g.tasks))]) > 2 * 10**9: continue
        turns = max([1] + [size * SC / d["p"] for d in sched if d["p"] > 0])     # roundings accumulated over the execution
        res.append(dict(graph=g.js(), q=q, scale=SC, eps=max(1, SC // 1000) if ex else int(20 + turns), omega=N(s["omega"]), hyper=int(round(om * H * SC)), kind=l, sched=sched))
    return res
def check(c):
    exe = c.driver("sched")
    for name, n, kw, lines in [("mixed", c.n(110, 1500), dict(limit=300), 1), ("strong", c.n(110, 1500), dict(limit=300, strongly=True), 1),
                               ("init", c.n(60, 1000), dict(limit=300, strongly=True, init=0.4), 0), ("multirate", c.n(60, 1000), dict(limit=300, strongly=True, maxq=5, maxph=2), 1),
                               ("wide", c.n(8, 200), dict(limit=500, n=8, maxq=2, maxph=2), 0), ("phased", c.n(10, 300), dict(limit=500, n=3, maxph=7, maxq=2), 1), ("rates", c.n(8, 200), dict(limit=700, n=3, qs=[3, 5, 7], maxph=1), 1),
                               ("zero", c.n(90, 1500), dict(limit=300, strongly=True, zero_dur=True, idle=.3), 1), ("zeros", c.n(60, 1000), dict(limit=300, zero_dur=True, maxph=2), 0)]:     # firings that take no time: live graphs only
        rng = c.sub(name); gs = thr.graphs(rng, n, **dict(dict(zero_dur=False, maxdur=4), **kw))
        if kw.get("zero_dur"): gs = [x for x in gs if x[1][0] > 0]
        cases = []
        for i, (g, e) in enumerate(gs):
            v = " ".join(str(rng.randint(1, 3)) for _ in g.tasks); w = " ".join(str(rng.randint(1, 2)) for _ in g.tasks)
            ls = ["1P", "KP", "V " + v] + (["SP", "LP " + w, "RLP"] if lines else [])
            cases.append((f"{name}{i}", drv.case_text(f"{name}{i}", g, {}, ls), (g, ls, e)))
        vf.pipeline(c, "ScheduleReplay", exe, cases, records, "sched")
