import re, thr, drv, vf, gen
from fractions import Fraction
A = "ASAPScheduling"
ROW = re.compile(r"^\s*(\d+)\) (\S+) \| starts:\{(.*?)\} \| period:(\S+) \| periodic starts:\{(.*?)\} \| durations:", re.M)
def ints(s):
    r = []
    for x in s.split(","):
        x = x.strip()
        if not x: continue
        v = float(x)
        if v != int(v) or abs(v) > 900000: return None
        r.append(int(v))
    return r
def parse(g, r):
    """-> (sched, period) or a schedule no execution can have"""
    none = [dict(init=[], per=-1, starts=[]) for _ in g.tasks]
    if r["status"] != "ok": return none, [-1, 1]
    o = r["out"][A]; rows = {}
    for m in ROW.finditer(o):
        i, p, s = ints(m.group(3)), ints(m.group(4)), ints(m.group(5))
        rows[int(m.group(1))] = dict(init=i, per=p[0], starts=s) if None not in (i, p, s) and len(p) == 1 else none[0]
    m = re.search(r"ASAP period is\s+(\S+)", o)
    m2 = re.search(r"ASAP throughput is\s+(\S+)", o)
    p = vf.frac(m.group(1) if m else None, 20000, 5e-6, 0)     # printed with six digits
    if m2 and m:      # the throughput line must say the same
        a, b = float(m.group(1)), float(m2.group(1))
        if abs(a * b - 1) > 2e-5: p = [-1, 1]
    return [rows.get(t["id"], none[0]) for t in g.tasks], p
def torec(x, r):
    g, e = x; s, p = parse(g, r)
    t = e[0]    # period printed with six digits: the exact one when the print is its rounding, else what was printed
    if t > 0 and p[1] > 0 and p[0] > 0 and abs(Fraction(*p) * t - 1) <= Fraction(6, 1000000): p = [(1 / t).numerator, (1 / t).denominator]
    return dict(graph=g.js(), q=[g.q[k["id"]] for k in g.tasks], cap=[], ans=[], sched=s, period=p)
def suspicious(x, r):
    g, e = x
    if r["status"] != "ok": return True
    rec = torec(x, r)
    if any(not s["starts"] or s["per"] < 0 for s in rec["sched"]) or Fraction(*rec["period"]) * e[0] != 1: return True
    return gen.asap_mismatch(g, rec["sched"])
def check(c):
    exe = c.driver("analyse")
    for name, n, keep, kw in [("strong", 900, 160, dict(strongly=True, limit=300)),
                              ("multirate", 600, 60, dict(strongly=True, maxq=5, maxph=2, limit=400)),
                              ("tokens", 900, 80, dict(strongly=True, maxph=3, n=4, extra=2, limit=300)),
                              ("circuits", 400, 50, dict(strongly=True, n=4, extra=3, qs=[1, 2, 3, 4, 6], maxph=2, tight=.6, limit=400))]:
        kw.setdefault("zero_dur", False)
        gs = [x for x in thr.pool(c, name, c.n(n, n * 8), **kw) if x[1][0] > 0 and x[0].chans]
        cases = [(f"{name}{k}", drv.case_text(f"{name}{k}", x[0], {"algo": A}), x) for k, x in enumerate(gs)]
        vf.pipeline(c, "AsapSchedule", exe, cases, torec, "analyse", pre=(c.n(keep, keep * 10), suspicious))
