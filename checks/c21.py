import random, drv, vf
from fractions import Fraction as F
from math import gcd, lcm
from c15 import graph, EMPTY
KNOWN = [(440994, 3, 4, 6, 9, 5, 3, 2, 1), (787713, 4, 6, 4, 6, 5, 9, 4, 1)]     # seed and bounds of requests listed in known_findings.txt
def key(cs, out, rec): return "request-" + "-".join(l.split()[2] for l in cs[1].split("\n") if l.startswith("ARG P_"))
def solution(g):
    """iteration counts per connected part (decided by TLC)"""
    q = {}
    for t in g["tasks"]:
        if t["id"] in q: continue
        q[t["id"]] = F(1); part = [t["id"]]; k = 0
        while k < len(part):
            x = part[k]; k += 1
            for c in g["chans"]:
                for a, b, pa, pb in ((c["src"], c["dst"], sum(c["pp"]), sum(c["cp"])), (c["dst"], c["src"], sum(c["cp"]), sum(c["pp"]))):
                    if a == x and b not in q and pb: q[b] = q[a] * pa / pb; part.append(b)
        L = lcm(*[q[x].denominator for x in part]); G = gcd(*[int(q[x] * L) for x in part])
        for x in part: q[x] = F(int(q[x] * L) // G)
    return [int(q[t["id"]]) for t in g["tasks"]]
def room(g, q, si, di):
    """how many further iterations the neighbours of initial phases may need (estimate; TLC decides with it)"""
    T, C = g["tasks"], g["chans"]
    if not any(t["init"] for t in T): return 0
    rate = lambda a, b, k: a[k] if k < len(a) else b[(k - len(a)) % len(b)]
    for extra in (0, 2, 4, 8, 16, 40):
        cnt = [0] * len(T); tok = [c["m0"] for c in C]; moved = True
        while moved:
            moved = False
            for i, t in enumerate(T):
                while cnt[i] < len(t["init"]) + (2 + extra) * q[i] * len(t["dur"]) and all(d - 1 != i or tok[k] >= rate(C[k]["ci"], C[k]["cp"], cnt[i]) for k, d in enumerate(di)):
                    for k, c in enumerate(C):
                        if si[k] - 1 == i: tok[k] += rate(c["pi"], c["pp"], cnt[i])
                        if di[k] - 1 == i: tok[k] -= rate(c["ci"], c["cp"], cnt[i])
                    cnt[i] += 1; moved = True
        if all(cnt[i] >= len(t["init"]) + 2 * q[i] * len(t["dur"]) for i, t in enumerate(T)): return extra
    return 40
def rec(x, r):
    kind, cfg, stages = x
    ok = r["status"] == "ok"
    g = graph(r["out"]["g"] if ok else EMPTY); s = graph(r["out"]["same"] if ok else EMPTY)
    q = solution(g); n = sum(a * len(t["dur"]) for a, t in zip(q, g["tasks"]))
    if kind == "random" and n > 900: return None
    ix = {t['id']: k + 1 for k, t in enumerate(g['tasks'])}
    si = [ix[h["src"]] for h in g["chans"]]; di = [ix[h["dst"]] for h in g["chans"]]
    return dict(si=si, di=di, ok=ok, kind=kind, g=g, same=s, q=q, cfg=cfg, stages=stages, extra=room(g, q, si, di) if kind == "random" and ok else 0)
def check(c):
    exe = c.driver("rgen"); rng = c.rng; cases = []
    def request(i, rng, maxi, fixed=None, tasks=(2, 6)):
        a = rng.randint(*tasks); b = a + rng.randint(0, 2); e = rng.randint(0, 7); f = e + rng.randint(0, 3)
        cfg = dict(minv=a, maxv=b, mine=e, maxe=f, maxw=rng.choice([1, 2, 3, 5, 8]), maxd=rng.choice([1, 3, 9]), maxp=rng.choice([1, 1, 2, 4]), maxi=maxi)
        seed = rng.randint(0, 10 ** 6)
        if fixed: seed, a, b, e, f, mw, md, mp, mi = fixed; cfg = dict(minv=a, maxv=b, mine=e, maxe=f, maxw=mw, maxd=md, maxp=mp, maxi=mi)
        cases.append((i, drv.case_text(i, None, dict(gen="GenerateRandomSDF", other=rng.randint(0, 9999), P_seed=seed, P_min_vertices_count=cfg["minv"], P_max_vertices_count=cfg["maxv"], P_min_edges_count=cfg["mine"],
            P_max_edges_count=cfg["maxe"], P_max_weight=cfg["maxw"], P_max_duration=cfg["maxd"], P_max_phase_quantity=cfg["maxp"], P_max_init_phase_quantity=cfg["maxi"])), ("random", cfg, [])))
    for k in range(c.n(160, 4000)): request(f"r{k}", rng, 0)
    for k in range(c.n(24, 400)): request(f"s{k}", rng, 0, None, (7, 11))
    # requests with initial phases: always the same ones, the defects they show are listed in known_findings.txt
    fix = random.Random(21)
    for k in range(c.n(90, 3000)): request(f"i{k}", fix, fix.choice([1, 2]))
    fix = random.Random(2121)
    for k in range(c.n(16, 200)): request(f"j{k}", fix, fix.choice([1, 2]), None, (7, 10))
    for k, f in enumerate(KNOWN): request(f"k{k}", fix, 1, f)
    none = dict(minv=0, maxv=0, mine=0, maxe=0, maxw=0, maxd=0, maxp=0, maxi=0)
    for k in range(c.n(12, 60)):
        st = [rng.randint(1, 5) for _ in range(4)]; i = f"l{k}"
        cases.append((i, drv.case_text(i, None, dict(gen="genLTESDF", **{"P_" + n: v for n, v in zip(("miwf", "cwac", "ifft", "dd"), st)})), ("lte", none, st)))
    vf.pipeline(c, "Generator", exe, cases, rec, "rgen", timeout=20, key=key)
