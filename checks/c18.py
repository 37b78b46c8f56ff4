import drv, vf, gen
def dense(g):
    """tasks and channels numbered from 1, as files and generators give them"""
    m = {t["id"]: k + 1 for k, t in enumerate(g.tasks)}
    for t in g.tasks: t["id"] = m[t["id"]]; t["name"] = f"t{t['id']}"
    for k, c in enumerate(g.chans): c["id"] = k + 1; c["name"] = f"c{k + 1}"; c["src"] = m[c["src"]]; c["dst"] = m[c["dst"]]
    g.q = {m[a]: b for a, b in g.q.items()}
    return g
ROUTES = {"xyRouting": "xy", "randomRouting": "random", "BufferlessNoCMapAndRoute": "mapandroute"}
KINDS = {"randomMapping": "random", "moduloMapping": "modulo", "BufferlessNoCMapAndRoute": "mapandroute"}
def rec(x, r):
    g, forced = x
    ok = r["status"] == "ok"; o = r["out"]
    pos = {t["id"]: k + 1 for k, t in enumerate(g.tasks)}
    d = dict(ok=ok, xs=0, ys=0, nodes=[], links=[], map=[], forced=[dict(task=pos[a], node=b) for a, b in forced.items()], kind="", routing="", created=False, ch=[],
             model=dict(given=False, n=0, at=[], dur=[], ch=[]))
    if not ok: return d
    st = {s["algo"]: s for s in o["steps"]}; pre = [s for s in o["steps"] if s["algo"] != "ModelNoCConflictFreeCommunication"]
    last = pre[-1] if pre else dict(map=[], routes=[])
    mp = dict(map(tuple, last["map"])); rt = {a: b for a, b in last["routes"]}
    d.update(xs=o["xs"], ys=o["ys"], nodes=[dict(id=a, core=t == 0, x=u, y=v) for a, t, u, v in o["nodes"]], links=[dict(id=a, s=s, t=t) for a, s, t in o["edges"]],
             kind=next((KINDS[a] for a in st if a in KINDS), ""), routing=next((ROUTES[a] for a in st if a in ROUTES), ""), created="createNoC" in st or "BufferlessNoCMapAndRoute" in st)
    d["map"] = [mp.get(t["id"], -1) for t in g.tasks]
    d["ch"] = [dict(s=pos[c["src"]], t=pos[c["dst"]], route=rt.get(c["id"], []), pr=sum(c["pp"]), co=sum(c["cp"]), m0=c["m0"]) for c in g.chans]
    if "ModelNoCConflictFreeCommunication" in st:
        m = o["g"]; ids = [t["id"] for t in g.tasks]; ids += [t["id"] for t in m["tasks"] if t["id"] not in ids]; p = {i: k + 1 for k, i in enumerate(ids)}
        at = dict(map(tuple, st["ModelNoCConflictFreeCommunication"]["map"])); dur = {t["id"]: [int(float(v)) for v in t["dur"]] for t in m["tasks"]}
        d["model"] = dict(given=True, n=len(g.tasks), at=[at.get(i, -1) for i in ids], dur=[dur.get(i, [-1])[0] for i in ids],
                          ch=[dict(s=p[c["src"]], t=p[c["dst"]], pr=sum(c["pp"]), co=sum(c["cp"]), m0=c["m0"]) for c in m["chans"]])
    return d
def check(c):
    exe = c.driver("noc"); rng = c.rng; cases = []
    def add(g, args, forced={}):
        i = f"n{len(cases)}"; cases.append((i, drv.case_text(i, g, dict(args, **{f"P_{t['name']}": forced[t["id"]] for t in g.tasks if t["id"] in forced})), (g, forced)))
    lone = gen.random_graph(rng, n=1, maxph=1)
    for x in range(1, c.n(9, 13)):
        for y in range(1, c.n(9, 13)): add(lone, dict(mesh=f"{x} {y}", algos=""))
    for k in range(c.n(260, 4000)):
        g = gen.random_graph(rng, n=rng.randint(1, 6), maxph=1, zero_dur=False)
        x, y = rng.randint(1, 6), rng.randint(1, 6); a = dict(mesh=f"{x} {y}", seed=rng.randint(0, 10 ** 6))
        if rng.random() < .2: n = max(2, int(len(g.tasks) ** .5 + .999)); x = y = n; del a["mesh"]
        forced = {t["id"]: x * y + rng.randrange(x * y) for t in g.tasks if rng.random() < .5}
        pre = "" if "mesh" in a else "createNoC "
        if k % 9 == 0: a["algos"] = pre + "moduloMapping"
        else: a["algos"] = pre + "randomMapping " + rng.choice(["xyRouting", "randomRouting"]) + rng.choice(["", " ModelNoCConflictFreeCommunication"])
        add(g, a, forced)
    for k in range(c.n(180, 3000)):
        n = rng.randint(2, 7) if k % 3 else rng.randint(5, 11)
        kw = dict(parallel=.3) if k % 3 else dict(parallel=.5, extra=rng.randint(n, 4 * n), maxq=2)     # the second kind loads the links
        g = dense(gen.random_graph(rng, n=n, maxph=1, zero_dur=False, dead=0, selfloop=0, **kw))
        if gen.throughput(g)[0] <= 0: continue
        add(g, dict(algos="BufferlessNoCMapAndRoute" + rng.choice(["", " ModelNoCConflictFreeCommunication"])))
    vf.pipeline(c, "Noc", exe, cases, rec, "noc")
