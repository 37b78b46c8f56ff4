import drv, vf, thr
EMPTY = dict(tasks=[dict(id=0, name="none", reent=1, ninit=0, nph=1, init=[], dur=[0])], chans=[])
def graph(d):
    num = lambda x: int(float(x)) if float(x) == int(float(x)) else -1
    return dict(tasks=[dict(id=t["id"], name=t["name"], reent=t["reent"], init=[num(x) for x in t["init"]], dur=[num(x) for x in t["dur"]]) for t in d["tasks"]],
                chans=[dict({k: c[k] for k in ("id", "name", "src", "dst", "pi", "pp", "ci", "cp", "m0", "ts")}) for c in d["chans"]])
def rec(x, r):
    g, ids, name = x
    ok = r["status"] == "ok" and bool(r["out"]["before"]["tasks"])
    before = graph(r["out"]["before"]) if ok else graph(EMPTY)
    after = graph(r["out"]["after"]) if ok else graph(EMPTY)
    return dict(ok=ok, g=before, m=after, set=ids, name=name, n=[g.q[t["id"]] * len(g.t(t["id"])["dur"]) for t in before["tasks"]] if ok else [1])
def check(c):
    exe = c.driver("xform")
    cases = []
    for tag, count, kw in (("a", c.n(160, 3000), dict(maxph=1)), ("b", c.n(160, 3000), dict(maxph=3)), ("c", c.n(60, 1500), dict(n=5, maxph=2)), ("w", c.n(30, 400), dict(n=8, maxq=2, maxph=2)), ("p", c.n(30, 400), dict(n=3, maxph=7)),
                           ("i", c.n(160, 3000), dict(maxph=2, init=0.3))):   # initial phases in tasks that are left as they are
        k = 0
        for g, thr_ in thr.pool(c, "merge" + tag, count, dead=0, **kw):
            if not thr_[0]: continue
            for h in g.chans: h['ts'] = c.rng.randint(1, 4)
            can = [t["id"] for t in g.tasks if not t["init"]]
            if not can: continue
            n = c.rng.randint(1, len(can)); ids = c.rng.sample(can, n)
            i = f"m{tag}{k}"; k += 1
            cases.append((i, drv.case_text(i, g, dict(algo="Merge", P_tasks=",".join(map(str, ids)), P_name="merged")), (g, ids, "merged")))
    vf.pipeline(c, "Merge", exe, cases, rec, "xform")
