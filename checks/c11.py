import re, math
from fractions import Fraction as F
import thr, drv, vf, gen
from c09 import connected
FIXED = ["SP", "BURST", "AVERAGE", "MINMAX", "WIGGERS"]
LIB = ["PER"] + FIXED
CMDS = {"PeriodicSizing": ("PER", r"1Periodic size is (-?\d+)"), "SPeriodicSizing": ("SP", r"SPeriodicSizing size is (-?\d+)"),
        "BURST": ("BURST", r"Burst Sizing size is (-?\d+)"), "AVERAGE": ("AVERAGE", r"Average Sizing size is (-?\d+)"), "WIGGERS": ("WIGGERS", r"Wiggers Sizing size is (-?\d+)")}
def vecs(lo, ts, room):
    if len(lo) == 1: yield (lo[0] + room // ts[0],); return
    for x in range(room // ts[0], -1, -1):
        for v in vecs(lo[1:], ts[1:], room - x * ts[0]): yield (lo[0] + x,) + v
def witness(g, total, rate, ts, most=500):
    """a capacity vector of at most `total`, the fastest found; None when there are too many to try"""
    lo = [max([c["m0"]] + c["pp"] + c["cp"]) for c in g.chans]; ids = [c["id"] for c in g.chans]
    room = total - sum(a * b for a, b in zip(lo, ts))
    if room < 0: return lo
    best = (F(-1), lo)
    for n, v in enumerate(vecs(lo, ts, room)):
        if n > most: return None
        e = gen.throughput(g, caps=dict(zip(ids, v)), limit=3000)
        if e is None: continue
        if e[0] >= rate: return list(v)
        if e[0] > best[0]: best = (e[0], list(v))
    return best[1]
def lines(g, e, rate, P, slow, dse):
    self = any(c["src"] == c["dst"] for c in g.chans)
    if e[0] < rate: return [f"PER {P} {z}" for z in "01"] + [f"CMD {a} {P} -" for a in ("PeriodicSizing", "SPeriodicSizing")]     # only refusals
    ls = [f"{m} {P} {z}" for m in LIB if not (self and m == "MINMAX") for z in "01"] + [f"PER {slow} 1", f"PER {slow} 0", f"SP {slow} 0"]
    ls += [f"CMD PeriodicSizing {slow} -", f"CMD SPeriodicSizing {slow} -", f"CMD BackPressureSizing {P} -"]     # away from the smallest period, where they refuse on a rounding
    ls += [f"CMD FixedOffsetBufferSizing {P} {a}" for a in ("BURST", "AVERAGE", "WIGGERS")]
    ls += [f"VB {P} {dse[1]}"] + (["CMD PeriodicDSE 0 -", "CMD SPeriodicDSE 0 -"] if dse[0] else [])
    return ls
def ceilrate(p):
    """a rate not above one over the printed period (6 digits printed)"""
    x = F(p) * F(100002, 100000); k = 1000 if x < 20 else 100 if x < 200 else 10
    return F(k, math.ceil(x * k))
def outcome(x, rs):
    """[(line, result or None)] of one graph: every line is a case of its own"""
    return [(l, r["out"]["res"][0] if r and r["status"] == "ok" else None) for l, r in zip(x[3], rs)]
def records(x, rs):
    g, e, rate, ls, slow, mul = x; q = [g.q[t["id"]] for t in g.tasks]; ts = [c["ts"] for c in g.chans]
    base = dict(graph=g.js(), q=q, cap=[], ans=[], ts=ts, rate=[rate.numerator, rate.denominator], total=0, totals=[], order=[])
    rec = []; tot = {}; sp = None
    def wit(total, w, ts, who):
        v = witness(g, total, w, ts)
        if v is not None: rec.append(dict(base, kind="total", cap=v, total=total, ts=ts, who=who, rate=[w.numerator, w.denominator]))
    for l, r in outcome(x, rs):
        f = l.split(); k = f[0]
        if k in LIB:
            key = k + f[2] + ("slow" if f[1] == slow and slow != x[3][0].split()[1] else "")
            if r is None or not r["valid"] or r["total"] == 0: tot[key] = 0; continue
            tot[key] = r["total"]; w = rate if not key.endswith("slow") else rate / 2
            if k + f[2] == "PER0" and key.endswith("slow"): continue
            if k == "PER": wit(r["total"], w, ts, l)
            else:
                caps = [int(float(v)) for v in r["each"]]
                if key == "SP0": sp = caps
                rec.append(dict(base, kind="each", cap=caps, total=r["total"], who=l, rate=[w.numerator, w.denominator]))
        elif k == "CMD" and f[1].endswith("DSE"):
            pts = [p.split() for p in (r or "").splitlines() if re.match(r"^[-0-9.e+]+\t-?\d+$", p)]
            if not pts and tot.get("PER0" if f[1] == "PeriodicDSE" else "SP0", 0) > 0: rec.append(dict(base, kind="total", cap=[1] * len(ts), total=-1, who=l)); continue
            for p in pts[:2] + pts[len(pts) // 2:len(pts) // 2 + 1] + pts[-2:]:
                if F(p[0]) < 10000: wit(int(p[1]), ceilrate(p[0]), ts, l)
        elif k == "CMD":
            name = f[3] if f[3] != "-" else f[1]
            if name == "BackPressureSizing":
                m = re.search(r"Total buffer size : (-?\d+)", r or "")
                if m: wit(int(m.group(1)), rate, [1] * len(ts), l)
            else:
                m = re.search(CMDS[name][1], r or ""); tot["cmd" + CMDS[name][0] + ("slow" if name.endswith("PeriodicSizing") and f[2] == slow else "")] = int(m.group(1)) if m else 0
        elif k == "VB" and r is not None and sp:
            ix = {c["id"]: n for n, c in enumerate(g.chans)}; tx = {t["id"]: n + 1 for n, t in enumerate(g.tasks)}
            new = [c for c in r["chans"] if c["id"] in ix] ; new.sort(key=lambda c: ix[c["id"]]); new += [c for c in r["chans"] if c["id"] not in ix]
            J = lambda c: dict(src=tx.get(c["src"], 0), dst=tx.get(c["dst"], 0), pi=c["pi"], pp=c["pp"], ci=c["ci"], cp=c["cp"], m0=c["m0"])
            num = lambda v: int(float(v)) if re.match(r"^\d+(\.0*)?$", v) else -1
            gr = dict(tasks=[dict(reent=t["reent"], init=[num(v) for v in t["init"]], dur=[num(v) for v in t["dur"]]) for t in sorted(r["tasks"], key=lambda t: tx.get(t["id"], 0))], chans=[J(c) for c in new])
            rec.append(dict(base, graph=gr, kind="graph", orig=g.js(), each=sp, mul=mul, who=l))
    names = sorted(tot); ix = {n: k + 1 for k, n in enumerate(names)}
    od = [("PER1", m + "1") for m in FIXED] + [(m + "1", m + "0") for m in LIB] + [("PER1slow", "PER1")]
    od += [p for m in LIB for z in ("", "slow") for p in (("cmd" + m + z, m + "0" + z), (m + "0" + z, "cmd" + m + z)) if tot.get(m + "0", 0) > 0]
    rec.append(dict(base, kind="none", totals=[tot[n] for n in names], order=[[ix[a], ix[b]] for a, b in od if a in ix and b in ix], who=",".join(names)))
    return rec
def part(a):
    import random
    seed, count, kw = a; rng = random.Random(seed); r = []
    while len(r) < count:
        g = gen.random_graph(rng, zero_dur=False, **kw)
        if not 1 <= len(g.chans) <= 5 or not connected(g): continue
        if any(c["m0"] > 12 for c in g.chans): continue
        e = gen.throughput(g, limit=250)
        if e is None or e[0] <= 0: continue
        for c in g.chans: c["ts"] = rng.choice([1, 1, 1, 2, 3])
        k = rng.choice([F(1), F(1), F(5, 4), F(3, 2), F(2), F(3), F(4, 5)]); rate = e[0] / k
        P = "%.12g" % float(1 / rate); slow = "%.12g" % float(2 / rate); mul = rng.choice([1, 1, 2])
        r.append((g, e, rate, lines(g, e, rate, P, slow, (rng.random() < 0.25, mul)), slow, mul))
    return r
def judge(a):
    """steering only: (records, does an estimate disagree?)"""
    x, rs = a; rec = records(x, rs); g = x[0]; ids = [c["id"] for c in g.chans]; sus = False; P = lambda f: F(f[0], f[1])
    for d in rec:
        if d["kind"] in ("each", "total"):
            v = sum(a * b for a, b in zip(d["cap"], d["ts"]))
            if any(a < c["m0"] for a, c in zip(d["cap"], g.chans)): sus = True; continue
            t = gen.throughput(g, caps=dict(zip(ids, d["cap"])), limit=5000)
            sus |= t is None or t[0] < P(d["rate"]) or (v != d["total"] if d["kind"] == "each" else v > d["total"])
        elif d["kind"] == "none":
            t = d["totals"]; sus |= any(t[b - 1] > 0 and not 0 < t[a - 1] <= t[b - 1] for a, b in d["order"]) or (x[1][0] < x[2] and any(t))
        else:
            o = d["orig"]["chans"]; n = d["graph"]["chans"]
            sus |= d["graph"]["tasks"] != d["orig"]["tasks"] or n[:len(o)] != o or sorted((c["dst"], c["src"], c["cp"], c["pp"], c["m0"]) for c in n[len(o):]) != \
                sorted((c["src"], c["dst"], c["pp"], c["cp"], d["mul"] * z - c["m0"]) for c, z in zip(o, d["each"]))
    return rec, bool(sus)
def check(c):
    from multiprocessing import Pool
    exe = c.driver("bsize")
    for name, n, keep, kw in [("mixed", 96, 10, dict()), ("strong", 96, 10, dict(strongly=True, selfloop=0.05)), ("chain", 64, 8, dict(strongly=False, selfloop=0, maxq=4)),
                              ("sdf", 64, 8, dict(maxph=1, maxq=5, selfloop=0.05)), ("phases", 64, 8, dict(maxph=4, n=2, selfloop=0.05, maxq=2))]:
        n = c.n(n, n * 10); keep = c.n(keep, keep * 10)
        with Pool(8) as p: xs = [x for r in p.map(part, [(f"{c.seed}-c11-{name}-{k}", (n + 15) // 16, kw) for k in range(16)]) for x in r]
        cases = [(f"{name}{i}.{j}", drv.case_text(f"{name}{i}.{j}", x[0], {}, [l])) for i, x in enumerate(xs) for j, l in enumerate(x[3])]
        out = drv.run(exe, cases)
        done = [i for i, x in enumerate(xs) if all((out.get(f"{name}{i}.{j}") or {}).get("status") != "skipped" for j in range(len(x[3])))]
        with Pool(8) as p: js = dict(zip(done, p.map(judge, [(xs[i], [out.get(f"{name}{i}.{j}") for j in range(len(xs[i][3]))]) for i in done], chunksize=4)))
        c.notes["executed_by_the_code"] = c.notes.get("executed_by_the_code", 0) + len(cases)
        order = [i for i in done if js[i][1]][:12] + [i for i in done if not js[i][1]][:keep]
        def again(i):
            x = xs[i]; r = [drv.run(exe, [(k, drv.case_text(k, x[0], {}, [l]))], jobs=1, timeout=30).get(k) for k, l in [(f"{name}{i}.{j}", l) for j, l in enumerate(x[3])]]
            return records(x, r), {l: v for l, v in outcome(x, r)}
        vf.decide(c, "Sizing", [(i, js[i][0]) for i in order], again, "bsize", lambda i: "".join(drv.case_text(f"{name}{i}.{j}", xs[i][0], {}, [l]) for j, l in enumerate(xs[i][3])))
