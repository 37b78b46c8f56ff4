import re, drv, vf, gen
def norm(cycles):
    r = []
    for y in cycles:
        if len(y) > 1 and y[0] == y[-1]: y = y[:-1]
        k = y.index(min(y)); r.append(y[k:] + y[:k])
    return r
def listed(s, ix):
    return norm([[ix.get(int(x), 0) for x in l.split("->")] for l in s.splitlines() if re.match(r"^\d+( -> \d+)*$", l.strip())])
def graph(rng):
    n = rng.randint(1, 7) if rng.random() < .9 else rng.randint(8, 14); g = gen.Graph("s"); m = rng.choice([n, 2 * n])
    ids = sorted(rng.sample(range(1, m + 1), n))
    for i in ids: g.task(f"t{i}", [1], id=i)
    d = rng.choice([0.1, 0.2, 0.35, 0.5] if n < 8 else [.08, .12, .16]); pairs = [(a, b) for a in ids for b in ids if a != b and rng.random() < d]
    if pairs and rng.random() < .25: pairs.append(rng.choice(pairs))
    rng.shuffle(pairs)
    for a, b in pairs: g.chan(a, b, [1], [1], rng.randint(0, 1))
    return g
def rec(g, r):
    o = r["out"]; ix = {t["id"]: k + 1 for k, t in enumerate(g.tasks)}
    if r["status"] != "ok": o = dict(scc=[], detect="", count="", count2="")
    t = re.search(r"number of cycles: (\d+)", o["count"])
    return dict(graph=g.js(), scc=[[ix.get(x, 0) for x in s] for s in o["scc"]], detect=1 if "result: 1" in o["detect"] else 0 if "result: 0" in o["detect"] else 2,
                cyc=listed(o["count"], ix), again=listed(o["count2"], ix), total=int(t.group(1)) if t else -1)
def check(c):
    exe = c.driver("basics")
    cases = [(f"s{k}", drv.case_text(f"s{k}", g, {"what": "scc"}), g) for k, g in enumerate(graph(c.rng) for _ in range(c.n(700, 8000)))]
    vf.pipeline(c, "Structure", exe, cases, rec, "basics")
