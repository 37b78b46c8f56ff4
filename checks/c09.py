import os, tempfile, shutil
from fractions import Fraction
import thr, drv, vf, gen
A = "ThroughputBufferingDSE"
MODES = {"kiter": ("_kiter", {}), "symb": ("_symbexec_corrected", {"P_SYMB_EXEC_CORRECTED": 1}),
         "goal": ("_kiter", {}), "goalsymb": ("_symbexec_corrected", {"P_SYMB_EXEC_CORRECTED": 1})}
def connected(g):
    s = {g.tasks[0]["id"]}; ch = True
    while ch:
        n = s | {x for c in g.chans for x in (c["src"], c["dst"]) if c["src"] in s or c["dst"] in s}
        ch = n != s; s = n
    return len(s) == len(g.tasks)
def vectors(lo, room):
    if not lo: yield (); return
    for x in range(room + 1):
        for v in vectors(lo[1:], room - x): yield (lo[0] + x,) + v
def front(g, limit, maxbox):
    """steering only: (max throughput, lo, estimated front)"""
    e = gen.throughput(g, limit=limit)
    if e is None or e[0] <= 0: return None
    lo = [max([c["m0"]] + c["pp"] + c["cp"]) for c in g.chans]; ids = [c["id"] for c in g.chans]
    best = Fraction(0); pts = []; memo = {}
    for room in range(0, 40):
        n = 0; top = best
        for v in vectors(lo, room):
            if sum(v) != sum(lo) + room: continue
            n += 1; x = gen.throughput(g, caps=dict(zip(ids, v)), limit=limit)
            if x is None: return None
            memo[v] = x[0]
            if x[0] > top: top = x[0]
        if top > best: pts.append((sum(lo) + room, top)); best = top
        if best == e[0]: return e[0], lo, pts, memo
        if len(memo) > maxbox: return None
    return None
def part(a):
    import random
    seed, count, maxbox, kw = a; rng = random.Random(seed); r = []
    while len(r) < count:
        g = gen.random_graph(rng, zero_dur=False, **kw)
        if not 1 <= len(g.chans) <= 4 or not connected(g): continue
        if any(c["m0"] > 8 for c in g.chans): continue
        for k, c in enumerate(sorted(g.chans, key=lambda c: c["id"])): c["id"] = k + 1; c["name"] = "c%d" % (k + 1)
        g.chans.sort(key=lambda c: c["id"])
        f = front(g, 250, maxbox)
        if f is None: continue
        r.append((g, f))
    return r
def points(g, r, which="pp"):
    """-> [(size, [num, den], caps in channel order)] or None"""
    if r["status"] != "ok" or not r["out"].get(which): return None
    order = [int(x) for x in r["out"]["order"].split()]; pos = {i: k for k, i in enumerate(order)}
    pts = []
    for l in r["out"][which].splitlines()[1:]:
        f = l.split(";")
        try: caps = [int(x) for x in f[2].strip('"').split(",")]; size = int(f[0])
        except (ValueError, IndexError): return None
        if len(caps) != len(g.chans): return None
        pts.append((size, vf.frac(f[1], 700, 5e-6, 0), [caps[pos[c["id"]]] for c in g.chans]))
    return pts
def goal(f, mode):
    """requested rate: the full one unless the mode asks for a smaller one (a rate between two points or a point's)"""
    mx, lo, est, memo = f
    return mx if not mode.startswith("goal") else est[len(est) // 2][1]
def torec(x, r):
    (g, f), mode = x; q = [g.q[t["id"]] for t in g.tasks]; base = dict(graph=g.js(), q=q, ans=[])
    pts = points(g, r)
    if pts is None: return [dict(base, cap=[], kind="max", pts=[dict(size=-1, thr=[-1, 1])], size=0)]
    P = [dict(size=s, thr=t) for s, t, _ in pts]
    lo = [max([c["m0"]] + c["pp"] + c["cp"]) for c in g.chans]
    w = goal(f, mode)
    rs = [dict(base, cap=[], kind="max", pts=P, size=0, **(dict(goal=[w.numerator, w.denominator]) if w != f[0] else {}))]
    log = points(g, r, "log") or []
    seen = set()
    for s, t, v in pts + log[:4]:
        if t[0] == 0 and not any(v): continue      # the zero point
        if any(a < c["m0"] for a, c in zip(v, g.chans)):
            rs.append(dict(base, cap=[], kind="max", pts=[dict(size=-1, thr=[-1, 1])], size=0)); continue     # not a capacity vector
        if (s, tuple(v)) in seen: continue
        seen.add((s, tuple(v)))
        rs.append(dict(base, cap=v, kind="point", pts=P, size=s, ans=[dict(who="listed", rel="eq", v=t)]))
    if pts: rs.append(dict(base, cap=lo, below=pts[-1][0], kind="box", pts=P, size=0))
    return rs
def suspicious(x, r):
    (g, (mx, lo, est, memo)), mode = x
    pts = points(g, r); w = goal(x[0][1], mode)
    if not pts or (lambda v: v[1] <= 0 or Fraction(*v) < w)(pts[-1][1]): return True
    got = sorted((s, Fraction(*t)) for s, t, v in pts if t[1] > 0 and t[0] > 0)
    if sorted(set(got)) != sorted(p for p in est if p[0] <= pts[-1][0]): return True
    ids = [c["id"] for c in g.chans]
    for s, t, v in pts + (points(g, r, "log") or [])[:4]:
        if t[0] == 0 and not any(v): continue
        if t[1] <= 0 or sum(v) != s: return True
        if tuple(v) in memo: e = memo[tuple(v)]
        else:
            if any(a < c["m0"] for a, c in zip(v, g.chans)): return True
            e = gen.throughput(g, caps=dict(zip(ids, v)), limit=2000); e = e and e[0]
        if e is not None and Fraction(*t) != e: return True
    return False
def check(c):
    from multiprocessing import Pool
    exe = c.driver("dse")
    tmp = tempfile.mkdtemp(prefix="kdse-", dir=os.path.join(vf.VERIF, ".build"))
    try:
        for name, n, keep, maxbox, kw in [("pairs", 480, 40, 60, dict(n=2, maxq=4, maxph=1, extra=1, selfloop=.1)),
                                          ("phases", 480, 40, 60, dict(n=2, maxq=2, maxph=3, extra=1, selfloop=.1)),
                                          ("three", 320, 24, 120, dict(n=3, maxq=2, maxph=2, extra=1, selfloop=.1))]:
            n = c.n(n, n * 8)
            with Pool(8) as p: gs = [x for r in p.map(part, [(f"{c.seed}-{c.id}-{name}-{k}", (n + 15) // 16, maxbox, kw) for k in range(16)]) for x in r]
            cases = []
            for k, x in enumerate(gs):
                for m, (suf, ps) in MODES.items():
                    if m.startswith("goal") and goal(x[1], m) == x[1][0]: continue
                    if m.startswith("goal"): ps = dict(ps, P_THR="%.17g" % float(goal(x[1], m)))
                    i = f"{name}{k}{m}"
                    cases.append((i, drv.case_text(i, x[0], dict(ps, algo=A, suffix=suf)), (x, m)))
            vf.pipeline(c, "Pareto", exe, cases, torec, "dse", env=dict(KH_TMP=tmp), pre=(c.n(keep, keep * 10), suspicious))
    finally: shutil.rmtree(tmp, ignore_errors=True)
