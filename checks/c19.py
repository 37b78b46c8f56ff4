import drv, vf, gen, packets, re
from c18 import dense
def depth(deps):
    n = len(deps); d = [None] * n
    def f(p):
        if d[p] is None: d[p] = 1 + max([f(x) for x in deps[p]], default=0)
        return d[p]
    for p in range(n): f(p)
    return d
def rec(x, r):
    mp, slots, total, rows_, cols, h = x
    d = dict(ok=False, total=total, cols=cols, h=0, thro1000=0, exec1000=0, pk=[], times=[], ev=[])
    if r["status"] != "ok": return d
    o = r["out"]; rows = packets.lines(o["list"]); n = len(rows)
    d["pk"] = [dict(s=mp[w[0]], t=mp[w[1]], dur=w[2], deps=[k + 1 for k in w[5:]], slot=slots.get((mp[w[0]], mp[w[1]]), -1)) for w in rows]
    log, tab, avg = {}, {}, None
    for l in o["text"].split("\n"):
        m = re.match(r"pkt_id=(\d+),src=(\d+),dest=(\d+),duration=(-?\d+),cycle=(-?\d+) done in (-?\d+)$", l)
        if m: a = list(map(int, m.groups())); log.setdefault(a[0], []).append(a); continue
        m = re.match(r"pkt_id=(\d+),(-?\d+),(-?\d+),(-?\d+),(-?\d+),(\d+),(\d+),(-?\d+)$", l)
        if m: a = list(map(int, m.groups())); tab.setdefault(a[0], []).append(a); continue
        m = re.match(r"thro=([-0-9.e+]+),exec_time=([-0-9.e+]+)$", l)
        if m: avg = [round(1000 * float(v)) for v in m.groups()]
    if avg is None or any(len(log.get(p, [])) != 1 or len(tab.get(p, [])) != 1 for p in range(n)) or len(log) != n or len(tab) != n: return d
    if any([log[p][0][1], log[p][0][2], log[p][0][3]] != [k["s"], k["t"], k["dur"]] or tab[p][0][5:] != [k["s"], k["t"], k["dur"]] for p, k in enumerate(d["pk"])): return d
    d["ok"] = True
    if h and n and n % h == 0: d.update(h=h, thro1000=avg[0], exec1000=avg[1])
    d["times"] = [dict(deps=tab[p][0][1], comp=tab[p][0][2], slot=tab[p][0][3], data=tab[p][0][4], sent=log[p][0][4], done=log[p][0][5]) for p in range(n)]
    dp = depth([[k - 1 for k in q["deps"]] for q in d["pk"]]); ev = []
    for p, t in enumerate(d["times"]):
        for s, (k, f) in enumerate([("start", "deps"), ("computed", "comp"), ("send", "slot"), ("deliver", "data")]): ev.append(((t[f], dp[p], s), dict(p=p + 1, k=k, t=t[f])))
    d["ev"] = [e for _, e in sorted(ev, key=lambda e: e[0])]
    return d
def check(c):
    exe = c.driver("packets"); rng = c.rng; cases = []; lone = gen.random_graph(rng, n=1, maxph=1)
    while len(cases) < c.n(1300, 12000):
        graph = rng.random() < .35
        rows, cols = (4, 4) if graph else (rng.randint(1, 4), rng.randint(1, 5))
        nodes = rows * cols; total = rng.randint(1, 12)
        # a slot per pair; distinct for one source unless the table is too short
        slots = {(s, t): rng.randrange(total) for s in range(nodes) for t in range(nodes) if s != t}
        args = dict(what="tdma")
        if graph:
            g = dense(gen.random_graph(rng, n=rng.randint(1, 5), maxph=1, maxq=3, maxdur=9))
            th = gen.throughput(g)
            if th is None or th[0] <= 0: continue
            psize = rng.choice([0, 1, 2, 4]); iters = rng.randint(1, 4)
            per = sum(g.q[t["id"]] * (1 + sum(1 if psize == 0 else -(-sum(k["pp"]) // psize) for k in g.chans if k["src"] == t["id"])) for t in g.tasks)
            if per * iters > 80: continue
            args.update(pkt="graph", P_psize=psize, P_iteration=iters); nt = len(g.tasks); h = per
        else:
            g = lone; nt = rng.randint(1, 6); n = rng.randint(1, 24); order = list(range(n)); fwd = rng.random() < .4
            if fwd: rng.shuffle(order)
            pos = {p: k for k, p in enumerate(order)}; lines = ["#R,C,B", f"{rows},{cols},1", "#header"]; few = rng.random() < .4; pair = (rng.randrange(nt), rng.randrange(nt))
            for p in range(n):
                deps = [q for q in range(n) if pos[q] < pos[p] and rng.random() < 2.0 / n]
                s, t = pair if few and rng.random() < .7 else (rng.randrange(nt), rng.randrange(nt))
                lines.append(",".join(map(str, [s, t, rng.choice([0, 0, 1, 2, 7, rng.randint(0, 40)]), p, 0] + deps)))
            args["pkt"] = ";".join(lines) + ";"; h = rng.choice([k for k in range(1, n + 1) if n % k == 0])
        mp = [rng.randrange(nodes) for _ in range(nt)] if rng.random() < .5 or nt > nodes else rng.sample(range(nodes), nt)
        args["map"] = ",".join(map(str, [h] + mp)); args["slot"] = ";".join([str(total)] + [f"src,{s},dest,{t},slot,{v}" for (s, t), v in slots.items()]) + ";"
        i = f"t{len(cases)}"; cases.append((i, drv.case_text(i, g, args), (mp, slots, total, rows, cols, h)))
    vf.pipeline(c, "Tdma", exe, cases, rec, "packets")
