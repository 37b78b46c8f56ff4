"""Seeded generation of CSDF graphs (inputs of the conformance checks)."""
import random
from math import gcd

def lcm(a, b): return a * b // gcd(a, b)

def split(rng, total, n, zeros=True):
    """random composition of total over n phases"""
    if n == 1: return [total]
    while True:
        if zeros and rng.random() < 0.5:
            v = [0] * n
            for _ in range(total): v[rng.randrange(n)] += 1
        else:
            if total < n: zeros = True; continue
            v = [1] * n
            for _ in range(total - n): v[rng.randrange(n)] += 1
        return v

class Graph:
    def __init__(self, name="g"):
        self.name = name; self.tasks = []; self.chans = []
    def task(self, name, dur, init=(), reent=1, id=None):
        i = id if id is not None else (max([t["id"] for t in self.tasks] + [0]) + 1)
        self.tasks.append(dict(id=i, name=name, reent=reent, init=list(init), dur=list(dur)))
        return i
    def chan(self, src, dst, pp, cp, m0=0, pi=(), ci=(), ts=1, id=None, name=None):
        i = id if id is not None else (max([c["id"] for c in self.chans] + [0]) + 1)
        self.chans.append(dict(id=i, name=name or f"c{i}", src=src, dst=dst, pi=list(pi), pp=list(pp), ci=list(ci), cp=list(cp), m0=m0, ts=ts))
        return i
    def t(self, id): return next(t for t in self.tasks if t["id"] == id)
    def text(self):
        o = [f"G {self.name}"]
        for t in self.tasks:
            o.append(f"T {t['id']} {t['name']} {t['reent']} {len(t['init'])} {' '.join(map(str,t['init']))} {len(t['dur'])} {' '.join(map(str,t['dur']))}")
        for c in self.chans:
            f = lambda v: f"{len(v)} {' '.join(map(str, v))}"
            o.append(f"C {c['id']} {c['name']} {c['src']} {c['dst']} {f(c['pi'])} {f(c['pp'])} {f(c['ci'])} {f(c['cp'])} {c['m0']} {c['ts']}")
        return "\n".join(o) + "\n"
    def js(self):
        """index-based form read by the TLA+ modules (tasks and channels numbered 1..n)"""
        ix = {t["id"]: k + 1 for k, t in enumerate(self.tasks)}
        return dict(tasks=[dict(reent=t["reent"], init=t["init"], dur=t["dur"]) for t in self.tasks],
                    chans=[dict(src=ix[c["src"]], dst=ix[c["dst"]], pi=c["pi"], pp=c["pp"], ci=c["ci"], cp=c["cp"], m0=c["m0"]) for c in self.chans])

def random_graph(rng, n=None, maxq=3, maxph=3, maxdur=5, strongly=None, zero_dur=True, parallel=0.2, selfloop=0.15, init=0.0,
                 maxmul=2, reent0=0.0, extra=None, dead=0.15, name="g", qs=None, tight=0.0, idle=0.0):
    n = n or rng.randint(1, 4)
    g = Graph(name)
    q = [rng.choice(qs) if qs else rng.randint(1, maxq) for _ in range(n)]
    k = 0
    for x in q: k = gcd(k, x)
    q = [x // k for x in q]
    ph = [rng.randint(1, maxph) if rng.random() < 0.5 else 1 for _ in range(n)]
    nin = [rng.randint(1, 2) if rng.random() < init else 0 for _ in range(n)]
    ids = list(range(1, n + 1))
    if rng.random() < 0.2: ids = sorted(rng.sample(range(1, 3 * n + 1), n))
    lo = 0 if zero_dur else 1
    for i in range(n):
        r = 0 if rng.random() < reent0 else 1
        d = [rng.randint(lo, maxdur) for _ in range(ph[i])]
        if sum(d) == 0: d[0] = rng.randint(1, maxdur)
        di = [rng.randint(lo, maxdur) for _ in range(nin[i])]
        if r == 0:   # auto-concurrent tasks: one duration only (no overtaking)
            x = rng.randint(max(lo, 1), maxdur); d = [x] * ph[i]; di = [x] * nin[i]
        g.task("t%d" % ids[i], d, di, r, ids[i])
    def add(u, v, back):
        L = lcm(q[u], q[v]) * rng.randint(1, maxmul if rng.random() < 0.3 else 1)
        tp, tc = L // q[u], L // q[v]
        pp, cp = split(rng, tp, ph[u]), split(rng, tc, ph[v])
        pi = [rng.randint(0, 3) for _ in range(nin[u])]; ci = [rng.randint(0, 3) for _ in range(nin[v])]
        if u == v:
            m0 = rng.randint(0 if rng.random() < dead else max(pp + cp), 2 * tp + 1) if max(pp + cp) <= 2 * tp + 1 else 2 * tp + max(ci + [0])
            m0 += sum(ci)
        elif back:
            need = tp + tc - gcd(tp, tc)
            m0 = rng.choice([need, need + rng.randint(0, L), L, L + rng.randint(0, L), 2 * L])
            if tight and rng.random() < tight: m0 = need + rng.randint(0, max(1, need // 2))
            if rng.random() < dead: m0 = rng.randint(0, need)
            m0 += sum(ci)
        else:
            m0 = 0 if rng.random() < 0.6 else rng.randint(0, L + 1)
            if sum(pi) < sum(ci): m0 += rng.choice([0, sum(ci)])
        g.chan(ids[u], ids[v], pp, cp, m0, pi, ci)
    if strongly is None: strongly = rng.random() < 0.5
    order = list(range(n)); rng.shuffle(order)
    if n > 1:
        if strongly and rng.random() < 0.7:
            for a in range(n): add(order[a], order[(a + 1) % n], a == n - 1)
        else:
            for a in range(1, n):
                b = rng.randrange(a); add(order[b], order[a], False)
                if strongly: add(order[a], order[b], True)
        for _ in range(rng.randint(0, extra if extra is not None else n // 2)):
            a, b = sorted(rng.sample(range(n), 2))
            if rng.random() < 0.5: add(order[a], order[b], False)
            elif strongly or rng.random() < 0.4: add(order[b], order[a], True)
        if rng.random() < parallel:
            a, b = sorted(rng.sample(range(n), 2))
            add(order[a], order[b], False)
            if strongly: add(order[b], order[a], True)
    if rng.random() < selfloop:
        a = rng.randrange(n); add(a, a, True)
    rng.shuffle(g.chans)
    if rng.random() < 0.3:
        for k2, c in enumerate(g.chans): c["id"] = k2 + 1; c["name"] = f"c{k2+1}"
    g.q = {ids[i]: q[i] for i in range(n)}
    if idle and strongly:          # tasks that take no time at all: none of the circuits consists of such tasks only
        zero = set()
        for t in rng.sample(g.tasks, n):
            if n < 2 or rng.random() >= idle or t["init"]: continue
            new = zero | {t["id"]}; seen = set(); todo = [t["id"]]
            while todo:
                for c in g.chans:
                    if c["src"] == todo[0] and c["dst"] in new and c["dst"] != c["src"] and c["dst"] not in seen: seen.add(c["dst"]); todo.append(c["dst"])
                todo.pop(0)
            if t["id"] in seen or len(new) == n: continue
            zero = new; t["dur"] = [0] * len(t["dur"])
    return g

# ---------------------------------------------------------------- helper: size estimate of a behaviour
def components(g):
    ids = [t["id"] for t in g.tasks]
    reach = {a: {a} for a in ids}
    ch = True
    while ch:
        ch = False
        for c in g.chans:
            for a in ids:
                if c["src"] in reach[a] and c["dst"] not in reach[a]: reach[a].add(c["dst"]); ch = True
    comps = []
    for a in ids:
        k = frozenset(b for b in ids if b in reach[a] and a in reach[b])
        if k not in comps: comps.append(k)
    return comps

def simulate(g, tasks=None, caps=None, limit=20000, trace=False, until=0):
    """generator-side estimate only (never an oracle): returns dict(steps, period, counts) or None"""
    T = {t["id"]: t for t in g.tasks if tasks is None or t["id"] in tasks}
    C = [c for c in g.chans if c["src"] in T and c["dst"] in T]
    tok = [c["m0"] for c in C]
    sp = [caps[c["id"]] - c["m0"] for c in C] if caps else None
    ins = {i: [k for k, c in enumerate(C) if c["dst"] == i] for i in T}
    outs = {i: [k for k, c in enumerate(C) if c["src"] == i] for i in T}
    f = {i: 0 for i in T}; busy = {i: [] for i in T}
    def ph(i, k):
        t = T[i]; a = len(t["init"])
        return (1, k) if k < a else (0, (k - a) % len(t["dur"]))
    def rate(c, i, k, prod):
        a, b = ph(i, k)
        return (c["pi" if prod else "ci"] if a else c["pp" if prod else "cp"])[b]
    def dur(i, k):
        a, b = ph(i, k); return T[i]["init"][b] if a else T[i]["dur"][b]
    now = 0; steps = 0; snap = {}; ev = []
    while True:
        prog = True
        while prog:
            prog = False
            for i in T:
                while busy[i] and busy[i][0][0] == 0:
                    k = busy[i].pop(0)[1]
                    for x in outs[i]: tok[x] += rate(C[x], i, k, True)
                    if sp:
                        for x in ins[i]: sp[x] += rate(C[x], i, k, False)
                    steps += 1; prog = True
                while ((not busy[i]) or T[i]["reent"] == 0) and all(tok[x] >= rate(C[x], i, f[i], False) for x in ins[i]) and \
                        (not sp or all(sp[x] >= rate(C[x], i, f[i], True) for x in outs[i])):
                    for x in ins[i]: tok[x] -= rate(C[x], i, f[i], False)
                    if sp:
                        for x in outs[i]: sp[x] -= rate(C[x], i, f[i], True)
                    if trace: ev.append((now, i, f[i]))
                    busy[i].append((dur(i, f[i]), f[i])); f[i] += 1
                    steps += 1; prog = True
                    if steps > limit: return None
                    if dur(i, f[i] - 1) == 0: break
        key = (tuple(tok), tuple(sp or ()), tuple(ph(i, f[i]) for i in T), tuple(tuple((r, ph(i, k)) for r, k in busy[i]) for i in T))
        if not any(busy.values()): return dict(steps=steps, period=0, iters=0, ev=ev, now=now)
        if key in snap and now >= until:
            n0, f0, s0 = snap[key]
            i = next(iter(T))
            return dict(steps=steps, period=now - n0, fir={j: f[j] - f0[j] for j in T}, ev=ev, now=now, t0=n0)
        snap[key] = (now, dict(f), steps)
        m = min(b[0][0] for b in busy.values() if b)
        for i in T: busy[i] = [(r - m, k) for r, k in busy[i]]
        now += m; steps += 1
        if steps > limit or now > 100000: return None

def throughput(g, caps=None, limit=20000):
    """(num, den) iterations per time: estimate used while exploring"""
    from fractions import Fraction
    best = None; tot = 0
    for comp in ([None] if caps else components(g)):
        r = simulate(g, comp, caps, limit)
        if r is None: return None
        tot += r["steps"]
        if r["period"] == 0: th = Fraction(0)
        else:
            i = next(iter(r["fir"])); th = Fraction(r["fir"][i], g.q[i] * len(g.t(i)["dur"])) / r["period"]
        best = th if best is None else min(best, th)
    return best, tot

def asap_mismatch(g, sched):
    """steering only: does the schedule differ from the generator's own execution?"""
    end = 0
    for s in sched:
        end = max(end, max(s["starts"]) + 2 * s["per"], max(s["init"] + [0]))
    r = simulate(g, None, None, 60000, trace=True, until=end + 1)
    if r is None or r["period"] == 0: return True
    ix = {t["id"]: k for k, t in enumerate(g.tasks)}
    for now, i, k in r["ev"]:
        s = sched[ix[i]]; a = len(s["init"]); b = len(s["starts"])
        x = s["init"][k] if k < a else s["starts"][(k - a) % b] + (k - a) // b * s["per"]
        if x != now: return True
    return False
