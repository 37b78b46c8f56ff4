import drv, vf, gen
def okval(r): return (1 if r["out"]["ok"] else 0) if r["status"] == "ok" else 0 if r["status"] in ("throw", "exit") else 2
def graphs(rng, n, connected=True, norm=False):
    """consistent graphs, graphs with one altered rate (usually inconsistent), disconnected ones"""
    res = []
    while len(res) < n:
        k = rng.random()
        g = gen.random_graph(rng, n=rng.randint(1, 6) if k < .9 else rng.randint(7, 14), maxq=rng.choice([2, 4, 9, 12]) if k < .8 else 6, maxph=rng.choice([1, 3, 5, 5, 12]), maxmul=3, dead=.3,
                             init=0.15 if not norm else 0, strongly=rng.random() < .4)
        if norm and any(not any(t["id"] in (c["src"], c["dst"]) for c in g.chans) for t in g.tasks): continue
        if any(len(t["dur"]) > 1 and not any(t["id"] in (c["src"], c["dst"]) for c in g.chans) for t in g.tasks): continue
        if g.chans and rng.random() < .35:      # break the balance of one channel
            c = rng.choice(g.chans); v = rng.choice([c["pp"], c["cp"]]); v[rng.randrange(len(v))] += rng.choice([1, 1, 2, 3, sum(v)])
        if rng.random() < .15:                  # a second, unconnected part
            h = gen.random_graph(rng, n=rng.randint(2, 3), strongly=True)
            m = max(t["id"] for t in g.tasks); mc = max([c["id"] for c in g.chans] + [0])
            if rng.random() < .3: c = rng.choice(h.chans); c["cp"][0] += 1
            for t in h.tasks: t["id"] += m; t["name"] = "b" + t["name"]; g.tasks.append(t)
            for c in h.chans: c["id"] += mc + 1; c["name"] = "b" + c["name"]; c["src"] += m; c["dst"] += m; g.chans.append(c)
        if max([sum(c["pp"]) for c in g.chans] + [1]) > 300: continue
        res.append(g)
    return res
def rec(g, r):
    o = r["out"]
    return dict(graph=g.js(), kind="rep", ok=okval(r), n=o.get("n", []), flag=1 if o.get("flag") else 0)
def check(c):
    exe = c.driver("basics")
    cases = [(f"r{k}", drv.case_text(f"r{k}", g, {"what": "rep"}), g) for k, g in enumerate(graphs(c.rng, c.n(1500, 15000)))]
    vf.pipeline(c, "Repetition", exe, cases, rec, "basics")
    small = [x for x in cases if len(x[2].chans) <= 5][:c.n(150, 1500)]
    vf.pipeline(c, "Repetition", exe, small, rec, "basics", consts={"AnyOrder": "TRUE"})   # the answer does not depend on the order of propagation
