import drv, vf, gen, re
from math import gcd
def rec(x, r):
    g, K = x; ok = r["status"] == "ok"
    d = dict(ok=ok, tasks=[], ch=[], e=[])
    if not ok: return d
    o = r["out"]; z = o["z"]; pos = {t["id"]: k + 1 for k, t in enumerate(g.tasks)}; ev = {}
    for i, label in re.findall(r'^(\d+) \[shape=circle,label="(.*?)\\n\(', o["text"], re.M):
        v = list(map(int, re.findall(r"\d+", label)))      # task, phase, firing
        ev[int(i)] = (pos.get(v[0], 0), v[-1]) if len(v) >= 2 else (0, 0)
    cnt = {}
    for t, a in ev.values(): cnt.setdefault(t, set()).add(a)
    d["tasks"] = [dict(k=K[t["id"]], z=z[k] if k < len(z) else 0, dur=int(t["dur"][0]), ev=len(cnt.get(k + 1, ())) if cnt.get(k + 1) == set(range(1, K[t["id"]] + 1)) else -1) for k, t in enumerate(g.tasks)]
    for c in g.chans:
        ki, kj, ni, nj = K[c["src"]], K[c["dst"]], g.q[c["src"]], g.q[c["dst"]]
        if c["src"] == c["dst"]: ni = nj = 1
        else:
            f = gcd(ni, nj); ni //= f; nj //= f
        u, v = ki // gcd(ki, ni), kj // gcd(kj, nj); p, q = sum(c["pp"]), sum(c["cp"])
        d["ch"].append(dict(s=pos[c["src"]], t=pos[c["dst"]], pr=p, co=q, m0=c["m0"], last=c["m0"] // q + 1 + nj * (u * v // gcd(u, v)) + kj))
    for s, t, w, dd in re.findall(r'^(\d+) ->(\d+) \[label="w=(\S+) d=(\S+) ', o["text"], re.M):
        a, b = ev.get(int(s)), ev.get(int(t)); w = float(w); dd = float(dd)
        if a is None or b is None or w != int(w) or dd != int(dd): d["ok"] = False; continue
        d["e"].append(dict(s=a[0], a=a[1], t=b[0], b=b[1], w=int(w), d=int(dd)))
    return d
def check(c):
    exe = c.driver("expand"); rng = c.rng; cases = []
    while len(cases) < c.n(700, 8000):
        g = gen.random_graph(rng, n=rng.randint(1, 5) if len(cases) % 8 else rng.randint(6, 12), maxph=1, maxq=rng.choice([3, 5, 7]), maxdur=rng.choice([3, 9, 1000]), dead=.2, strongly=rng.random() < .5)
        mode = rng.random(); K = {t["id"]: 1 if mode < .15 else g.q[t["id"]] if mode < .4 else rng.randint(1, 5) if len(cases) % 9 else rng.choice([1, 1, 2, 7, 10]) for t in g.tasks}
        if sum(K[h["src"]] * K[h["dst"]] for h in g.chans) > 120 or sum(h["m0"] // sum(h["cp"]) + g.q[h["dst"]] * K[h["src"]] * K[h["dst"]] for h in g.chans) > 400: continue
        a = {f"P_{t['name']}": K[t["id"]] for t in g.tasks if K[t["id"]] > 1 or rng.random() < .5}
        i = f"e{len(cases)}"; cases.append((i, drv.case_text(i, g, a), (g, K)))
    vf.pipeline(c, "Expansion", exe, cases, rec, "expand")
