import drv, vf, gen
from c15 import graph, EMPTY
def rec(x, r):
    kind, ids, bound = x
    ok = r["status"] == "ok"
    e = graph(EMPTY)
    return dict(ok=ok, kind=kind, a=graph(r["out"]["before"]) if ok else e, b=graph(r["out"]["after"]) if ok else e, set=ids, bound=bound)
def homogeneous(rng):
    g = gen.Graph(); n = rng.randint(1, 4)
    ids = sorted(rng.sample(range(1, 9), n))
    for i in ids: g.task(f"t{i}", [rng.randint(1, 4)], reent=rng.choice([0, 1, 1, 2]), id=i)
    hub = rng.choice(ids)
    for _ in range(rng.randint(0, 4)): g.chan(hub, rng.choice(ids), [1], [1], rng.randint(0, 2), ts=rng.randint(1, 3))
    for _ in range(rng.randint(0, 3)): g.chan(rng.choice(ids), rng.choice(ids), [1], [1], rng.randint(0, 2), ts=rng.randint(1, 3))
    rng.shuffle(g.chans)
    for k, c in enumerate(g.chans): c["id"] = k + 1; c["name"] = f"c{k + 1}"
    return g, hub
def check(c):
    exe = c.driver("xform"); rng = c.rng
    cases = []
    def case(g, algo, kind, ids, bound, **p):
        i = f"w{len(cases)}"
        cases.append((i, drv.case_text(i, g, dict(algo=algo, **{"P_" + k: v for k, v in p.items()})), (kind, ids, bound)))
    for k in range(c.n(120, 2000)):
        g, hub = homogeneous(rng)
        case(g, "SingleOutput", "single", [hub], 3, name=f"t{hub}")
    for k in range(c.n(120, 2000)):
        g = gen.random_graph(rng, n=rng.randint(1, 4) if rng.random() < .85 else rng.randint(5, 10), init=0.2, reent0=0.2, maxph=3 if rng.random() < .9 else 8)
        for h in g.chans: h["ts"] = rng.randint(1, 3)
        all_ = [t["id"] for t in g.tasks]; ids = rng.sample(all_, rng.randint(1, len(all_)))
        bound = 2 if len(all_) < 4 else 1
        how = rng.choice(["name", "id"])
        p = {"taskname": ",".join(f"t{x}" for x in ids)} if how == "name" else {"taskid": ",".join(map(str, ids))}
        if rng.random() < .6: case(g, "remove", "remove", ids, bound, **p)
        elif rng.random() < .3: case(g, "RemoveReentrancy", "reent", all_, bound)
        else: case(g, "RemoveReentrancy", "reent", ids, bound, **p)
    vf.pipeline(c, "Rewrite", exe, cases, rec, "xform")
