import drv, vf, gen, thr, copy, random, re, c06
from math import gcd
def build(rng, g, caps):
    """a schedule of the generator's own self-timed execution (bounded when caps are given), rewritten at random; the verdict is TLC's"""
    r = gen.simulate(g, None, caps, 400, trace=True)
    if r is None or r["period"] == 0: return None
    r = gen.simulate(g, None, caps, 4000, trace=True, until=r["now"] + 2 * r["period"])
    if r is None or r["period"] == 0: return None
    P, t0 = r["period"], r["t0"]; S = {t["id"]: [] for t in g.tasks}
    for now, i, k in r["ev"]: S[i].append(now)
    t = g.tasks[0]; num, den = P * g.q[t["id"]] * len(t["dur"]), r["fir"][t["id"]]
    L = den // gcd(num, den)
    if L > 6: return None
    L *= rng.choice([1, 1, 2, 3])
    slow = rng.choice([1, 1, 1, 2])                                   # a slower schedule
    h = copy.deepcopy(g)
    for t in h.tasks: t["dur"] = [d * L for d in t["dur"]]; t["init"] = [d * L for d in t["init"]]
    L *= slow
    sched = []; ni = sum(len(t["init"]) for t in h.tasks)
    for t in h.tasks:
        s = [x * L for x in S[t["id"]]]; n = r["fir"][t["id"]]; k0 = sum(1 for x in S[t["id"]] if x < t0)
        if len(s) < k0 + n or any(s[k + n] != s[k] + P * L for k in range(k0, len(s) - n)): return None
        while k0 > len(t["init"]) and k0 + n <= len(s) and s[k0 - 1] == s[k0 - 1 + n] - P * L and rng.random() < .8: k0 -= 1
        m = rng.choice([0, 0, 0, rng.randint(0, 2 * n)]); f = rng.choice([1, 1, 1, 2])
        full = [s[k] if k < k0 else s[k0 + (k - k0) % n] + (k - k0) // n * P * L for k in range(k0 + m + n * f)]
        sched.append({"is": full[:k0 + m], "p": P * L * f, "ps": full[k0 + m:]})
    omega = P * L * g.q[h.tasks[0]["id"]] * len(h.tasks[0]["dur"]) // r["fir"][h.tasks[0]["id"]]
    for _ in range(rng.choice([0, 0, 1, 1, 1, 2])):                   # small changes that may or may not break it
        k = rng.randrange(len(sched)); s = sched[k]; w = rng.random(); d = rng.choice([-1, 1, -1, 1, L, -L, 2])
        if w < .25 and s["is"]: s["is"][rng.randrange(len(s["is"]))] += d
        elif w < .5: s["ps"][rng.randrange(len(s["ps"]))] += d
        elif w < .65: s["is"] = [x + d for x in s["is"]]; s["ps"] = [x + d for x in s["ps"]]
        elif w < .8: x = rng.choice(h.tasks[k]["dur"]); j = rng.randrange(len(h.tasks[k]["dur"])); h.tasks[k]["dur"][j] = max(1, h.tasks[k]["dur"][j] + rng.choice([1, -1, L]))
        elif w < .95 and h.chans: c = rng.choice(h.chans); c["m0"] = max(0, c["m0"] - rng.choice([1, 1, 2]))
        else: h.tasks[k]["reent"] = 1 - h.tasks[k]["reent"]
    idle = [t for t in h.tasks if not t["init"] and not any(t["dur"])]
    for t in rng.sample(idle, min(len(idle), rng.choice([0, 1, 1, 2]))):      # a firing that takes no time cannot feed itself, alone or with another one
        u = t if rng.random() < .5 or not [u for u in idle if h.q[u["id"]] * len(u["dur"]) == h.q[t["id"]] * len(t["dur"])] else rng.choice([u for u in idle if h.q[u["id"]] * len(u["dur"]) == h.q[t["id"]] * len(t["dur"])])
        k = rng.randint(1, 2); n = max(c["id"] for c in h.chans) + 1; m = rng.choice([0, 0, k, k + 1])
        h.chan(t["id"], u["id"], [k] * len(t["dur"]), [k] * len(u["dur"]), m, id=n, name=f"c{n}")
        if u is not t: h.chan(u["id"], t["id"], [k] * len(u["dur"]), [k] * len(t["dur"]), rng.choice([0, k, k]), id=n + 1, name=f"c{n + 1}")
    if rng.random() < .15:
        d = rng.randint(1, 7)
        for s in sched: s["is"] = [x + d for x in s["is"]]; s["ps"] = [x + d for x in s["ps"]]
    for s in sched:
        full = s["is"] + s["ps"] + [s["ps"][0] + s["p"]]
        if full[0] < 0 or any(a > b for a, b in zip(full, full[1:])): return None
    end = max(s["ps"][0] for s in sched) + omega + max(max(t["dur"] + t["init"]) for t in h.tasks)
    if sum(len(s["is"]) + (end - s["ps"][0]) * len(s["ps"]) // s["p"] + 1 for s in sched) > 260: return None
    return h, sched, omega
def estimate(h, sched, omega):
    """steering only"""
    end = max(s["ps"][0] for s in sched) + omega + max(max(t["dur"] + t["init"]) for t in h.tasks); ev = []
    for t, s in zip(h.tasks, sched):
        k = 0; a, b = len(s["is"]), len(s["ps"]); n0 = len(t["init"]); last = -1
        while True:
            x = s["is"][k] if k < a else s["ps"][(k - a) % b] + (k - a) // b * s["p"]
            if x > end: break
            d = t["init"][k] if k < n0 else t["dur"][(k - n0) % len(t["dur"])]
            if t["reent"] and x < last: return "no"
            last = x + d; ev.append((x, t["id"], k, d)); k += 1
    tok = [c["m0"] for c in h.chans]; rt = lambda i, p, k: i[k] if k < len(i) else p[(k - len(i)) % len(p)]
    ev.sort(); ends = []; i = 0
    def out(t, k):
        for j, c in enumerate(h.chans):
            if c["src"] == t: tok[j] += rt(c["pi"], c["pp"], k)
    while i < len(ev):
        now = ev[i][0]; todo = []
        while i < len(ev) and ev[i][0] == now: todo.append(ev[i]); i += 1
        for x in sorted(y for y in ends if y[0] <= now): out(x[1], x[2])
        ends = [y for y in ends if y[0] > now]
        while todo:
            wait = []; stuck = set()
            for x, t, k, d in todo:
                if t in stuck or any(c["dst"] == t and tok[j] < rt(c["ci"], c["cp"], k) for j, c in enumerate(h.chans)): stuck.add(t); wait.append((x, t, k, d)); continue
                for j, c in enumerate(h.chans):
                    if c["dst"] == t: tok[j] -= rt(c["ci"], c["cp"], k)
                if d: ends.append((x + d, t, k))
                else: out(t, k)
            if len(wait) == len(todo): return "no"
            todo = wait
    return "yes"
def lines(sched): return [" ".join(map(str, [len(s["is"])] + s["is"] + [s["p"], len(s["ps"])] + s["ps"])) for s in sched]
def rec(x, r):
    h, s, om, e = x; ok = r["status"] == "ok"; v = r["out"]["verdict"] if ok else r["status"]
    if ok and r["out"]["again"] != v: v = "changes"
    return dict(graph=h.js(), q=[h.q[t["id"]] for t in h.tasks], omega=om, sched=s, verdict=v)
def suspicious(x, r): return rec(x, r)["verdict"] != x[3]
def _part(a):
    seed, n, kw = a; rng = random.Random(seed); res = []
    while len(res) < n:
        k = dict(kw); caps = k.pop("caps", 0)
        g = gen.random_graph(rng, **dict(dict(zero_dur=False, dead=0), **k))
        if any(len(t["dur"]) > 1 and not any(t["id"] in (h["src"], h["dst"]) for h in g.chans) for t in g.tasks): continue
        cp = {c["id"]: c["m0"] + 2 * max(sum(c["pp"]), sum(c["cp"])) + rng.randint(0, 4) for c in g.chans} if caps else None
        x = build(rng, g, cp)
        if x: res.append((*x, estimate(*x)))
    return res
def made(x, r):
    """schedules of the library's own schedulers: times are rationals, scaled to integers"""
    g, by, e = x
    if r["status"] == "ok" and r["out"]["verdict"] == "none": return []
    if r["status"] != "ok": return dict(graph=g.js(), q=[1] * len(g.tasks), omega=1, sched=[dict(**{"is": []}, p=0, ps=[]) for _ in g.tasks], verdict="no")
    o = r["out"]; vals = [o["omega"]] + [v for s in o["sched"] for v in s["is"] + s["ps"] + [s["p"]]]
    if any(re.search("n", v) for v in vals): return []
    L = 1
    for v in vals:
        f = c06.exact(v)
        if f is None: return []
        L = c06.lcm(L, f.denominator)
    if L > 2000: return []
    N = lambda v: int(c06.exact(v) * L); h = copy.deepcopy(g)
    for t in h.tasks: t["dur"] = [d * L for d in t["dur"]]; t["init"] = [d * L for d in t["init"]]
    s = [dict(**{"is": [N(v) for v in d["is"]]}, p=N(d["p"]), ps=[N(v) for v in d["ps"]]) for d in o["sched"]]; om = N(o["omega"])
    end = max(d["ps"][0] for d in s) + om + max(max(t["dur"] + t["init"]) for t in h.tasks)
    if end > 10**8 or sum(len(d["is"]) + (end - d["ps"][0]) * len(d["ps"]) // d["p"] + 1 for d in s) > 260: return []
    return dict(graph=h.js(), q=[h.q[t["id"]] for t in h.tasks], omega=om, sched=s, verdict=o["verdict"])
def check(c):
    from multiprocessing import Pool
    exe = c.driver("valid")
    for name, n, keep, kw in [("strong", 1200, 220, dict(strongly=True, maxdur=3)), ("open", 1000, 120, dict(caps=1, maxdur=3, maxph=3)),
                              ("reentrant", 1000, 120, dict(strongly=True, maxdur=5, reent0=.6, maxph=2)), ("init", 600, 80, dict(strongly=True, init=.4, maxdur=3)),
                              ("multirate", 800, 80, dict(strongly=True, maxq=5, maxph=2, maxdur=4, n=3)),
                              ("wide", 400, 25, dict(strongly=True, n=8, maxq=2, maxph=2, maxdur=3)), ("phased", 400, 30, dict(strongly=True, n=3, maxph=8, maxq=2, maxdur=3)),
                              ("zero", 1000, 110, dict(strongly=True, maxdur=3, zero_dur=True, idle=.4)), ("zeros", 800, 60, dict(strongly=True, maxdur=2, maxph=1, n=4, zero_dur=True, reent0=.3, idle=.5))]:     # executions that take no time
        n = c.n(n, n * 10); parts = 16
        with Pool(8) as p: gs = [x for r in p.map(_part, [(f"{c.seed}-c26-{name}-{k}", (n + parts - 1) // parts, kw) for k in range(parts)]) for x in r]
        c.rng.shuffle(gs)
        cases = [(f"{name}{k}", drv.case_text(f"{name}{k}", x[0], {"omega": x[2]}, lines(x[1])), x) for k, x in enumerate(gs)]
        vf.pipeline(c, "Validator", exe, cases, rec, "valid", pre=(c.n(keep, keep * 10), suspicious))
    gs = thr.pool(c, "made", c.n(240, 3000), limit=300, zero_dur=False, maxdur=4) + [x for x in thr.pool(c, "madezero", c.n(120, 1500), limit=300, zero_dur=True, maxdur=4) if x[1][0] > 0]
    cases = [(f"made{k}", drv.case_text(f"made{k}", x[0], {"by": by}), (x[0], by, x[1])) for k, x in enumerate(gs) for by in [["1P", "KP", "SP"][k % 3]]]
    vf.pipeline(c, "Validator", exe, cases, made, "valid", pre=(c.n(80, 1000), lambda x, r: r["status"] != "ok" or r["out"]["verdict"] == "no"))
