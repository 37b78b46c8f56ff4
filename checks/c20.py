import drv, vf, gen, packets
from c18 import dense
def rec(x, r):
    g, what, psize, iters, live = x
    ok = r["status"] == "ok"
    d = dict(ok=ok, live=live, want=what, tasks=[dict(dur=int(t["dur"][0]), q=g.q[t["id"]]) for t in g.tasks],
             ch=[dict(s=c["src"], t=c["dst"], pr=sum(c["pp"]), co=sum(c["cp"]), m0=c["m0"]) for c in g.chans], psize=psize, iters=iters, pk=[])
    if ok and what == "list":
        rows = packets.lines(r["out"]["text"]); lab = packets.label(g, rows, psize)
        d["pk"] = [dict(s=w[0] + 1, t=w[1] + 1, dur=w[2], id=w[3], deps=w[5:], c=k) if len(w) >= 5 else dict(s=0, t=0, dur=-1, id=-1, deps=[], c=-1) for w, k in zip(rows, lab)]
    return d
def check(c):
    exe = c.driver("packets"); rng = c.rng; cases = []
    while len(cases) < c.n(1300, 12000):
        big = rng.random() < .1
        g = dense(gen.random_graph(rng, n=rng.randint(1, 12 if big else 5), maxph=1, maxq=3 if big else 4, maxdur=rng.choice([9, 9, 3 * 10 ** 6]), dead=.15))
        th = gen.throughput(g)
        if th is None: continue
        live = th[0] > 0
        what = "run" if rng.random() < .2 else "list"; iters = rng.choice([1, 1, 2, 3]); psize = rng.choice([0, 0, 1, 2, 3, 5, 8])
        if iters * sum(g.q[t["id"]] * (1 + sum(1 if psize == 0 else -(-sum(h["pp"]) // psize) for h in g.chans if h["src"] == t["id"])) for t in g.tasks) > 150: continue
        a = dict(what=what)
        if psize or rng.random() < .3: a["P_psize"] = psize
        if iters > 1 or rng.random() < .3: a["P_iteration"] = iters
        i = f"p{len(cases)}"; cases.append((i, drv.case_text(i, g, a), (g, what, psize, iters, live)))
    vf.pipeline(c, "Packets", exe, cases, rec, "packets")
