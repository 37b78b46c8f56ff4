"""C29: a drawn schedule shows the executions of the schedule."""
import re
import drv, vf, gen, random
from fractions import Fraction
from math import lcm
F = lambda s: Fraction(s) if "e" not in str(s) else Fraction(float(s))
def near(x, dens=(1, 2, 4, 5, 8, 10)):
    """printed decimal -> the number it stands for"""
    try: x = float(x)
    except ValueError: x = float("nan")
    if not abs(x) < 1e7: return Fraction(-7919, 997)
    for d in dens:
        if abs(x * d - round(x * d)) < 2e-4 * max(1, abs(x) * d / 500): return Fraction(round(x * d), d)
    return Fraction(x).limit_denominator(997)
def schedule(o):
    r = []
    for s in o["sched"]:
        if any("inf" in str(v) or "nan" in str(v) for v in s["is"] + s["ps"] + [s["p"]]): return None
        f = lambda v: F(v).limit_denominator(1000)
        if any(abs(f(v) - F(v)) > Fraction(1, 10 ** 8) for v in s["is"] + s["ps"] + [s["p"]]): return None
        r.append({"is": [f(v) for v in s["is"]], "p": f(s["p"]), "ps": [f(v) for v in s["ps"]]})
    return r
VEC = lambda s: [near(x) for x in s.strip().strip("{}").split(",") if x.strip()]
def text(t, g):
    out = []
    for l in t.splitlines():
        if not l.strip(): continue
        m = re.match(r"^\s*(\d+)\) (\S+) \| starts:(\{.*?\}) \| period:(\S+) \| periodic starts:(\{.*?\}) \| durations:(\{.*?\});\[(\{.*?\})\]\s*$", l)
        if not m: return None
        out.append(dict(id=int(m.group(1)), name=m.group(2), **{"is": VEC(m.group(3)), "p": near(m.group(4)), "ps": VEC(m.group(5)), "init": VEC(m.group(6)), "dur": VEC(m.group(7))}))
    return out
def ascii(t, g):
    rows = {}
    for l in t.split("\n"):
        if not l: continue
        m = re.match(r"^\s*(\d+) \|(.*)$", l)
        if not m: return None
        rows[int(m.group(1))] = list(m.group(2))
    return [rows.get(t["id"], []) for t in g.tasks]
def tikz(t, g):
    boxes = []; order = sorted(x["id"] for x in g.tasks); ix = {x["id"]: k + 1 for k, x in enumerate(g.tasks)}; pend = None; cur = None
    for l in t.splitlines():
        m = re.match(r"^% Task (\d+)", l)
        if m: cur = int(m.group(1))
        m = re.match(r"^\\addperiodictask\[.*?\]\{(\d+)\}\{\$(\S+?)_\{(-?\d+)\}\$\}\{(.*?)\}\{(.*?)\}\{(.*?)\}\{0\}$", l)
        if m: pend = m.groups(); continue
        m = re.match(r"^\\addexecution\[.*?\]\{(\d+)\}\{\$(\S+?)_\{(-?\d+)\}\$\}\{(.*?)\}\{(.*?)\}$", l)
        if not m:
            if l.startswith("\\add"): return None
            continue
        k = int(m.group(1)); i = order[k - 1] if 0 < k <= len(order) else 0
        ok = i == cur and m.group(2) == next((x["name"] for x in g.tasks if x["id"] == i), None)
        if pend and (pend[0], pend[1], pend[2], pend[3], pend[4]) != m.groups(): return None
        boxes.append(dict(t=ix[i] if ok else 0, dur=near(m.group(4)), start=near(m.group(5)), period=near(pend[5]) if pend else Fraction(-1), style="box")); pend = None
    return boxes
def dot(t, g, xs, ys):
    boxes = []; cur = None; ix = {x["name"]: k + 1 for k, x in enumerate(g.tasks)}; hs = set(); cnt = 0; y0 = None
    for l in t.splitlines():
        m = re.match(r'^"(.*?)"\s*\[label="(.*?)\\r".*?height="(.*?)".*?pos="(.*?),(.*?)"', l)
        if m:
            if m.group(1) != m.group(2): return None
            cur = m.group(1); cnt = 0; y0 = float(m.group(5)); hs.add(abs(float(m.group(3)) - .1 * ys) < 1e-5 * ys); hs.add(abs(y0 + 5 * ys * (ix.get(cur, 0) - 1)) < 1e-4 * max(1, abs(y0))); continue
        m = re.match(r'^"(.*?)"\s*\[label="", width="(.*?)"(.*?)height="(.*?)".*?pos="(.*?),(.*?)"', l)
        if not m:
            if l.startswith('"'): return None
            continue
        d = float(m.group(2)) * 72; s = float(m.group(5)) - d / 2
        hs.add(abs(float(m.group(4)) - .05 * ys) < 1e-5 * ys); hs.add(abs(float(m.group(6)) - y0) < 1e-9)
        ok = m.group(1) == f"{cur}{cnt}0"; cnt += 1
        boxes.append(dict(t=ix.get(cur, 0) if ok else 0, dur=near(d / xs), start=near(s / xs), style="full" if "filled" in m.group(3) else "empty"))
    return boxes, int(hs <= {True})
def rec(x, r):
    g, a = x; o = r["out"]
    none = dict(kind="text", answered=0, den=1, tasks=[], sched=[], text=[], width=0, rows=[], boxes=[], until=-1, style=[], height=1)
    if r["status"] != "ok": return [none]
    if o.get("by") == "inconsistent": return None
    if a["by"] != "given" and (o["omega"] in ("inf", "nan", "-inf") or F(o["omega"]) <= 0): return None
    s = schedule(o)
    if s is None or any(not y["ps"] or y["p"] <= 0 for y in s): return None
    D = lcm(*[v.denominator for y in s for v in y["is"] + y["ps"] + [y["p"]]], *[Fraction(v).denominator for t in g.tasks for v in t["init"] + t["dur"]], 1)
    if D > 2000 or any(abs(v) * D > 10 ** 8 for y in s for v in y["is"] + y["ps"] + [y["p"]]): return None
    Z = lambda v: [int(q * D) for q in v]
    base = dict(none, answered=1, den=D, tasks=[dict(id=t["id"], name=t["name"], init=Z(t["init"]), dur=Z(t["dur"]), n=g.q[t["id"]] * len(t["dur"]) if len(g.tasks) > 1 else 0) for t in g.tasks],
                sched=[{"is": Z(y["is"]), "p": int(y["p"] * D), "ps": Z(y["ps"])} for y in s])
    R = []
    def W(q):     # a time that is no multiple of 1/den differs from all of them
        z = q * D; return int(z) if z.denominator == 1 else -7
    for k in a["order"]:
        if k == "a":
            rows = ascii(o["ascii"], g); R.append(dict(base, kind="line", width=a["line"], rows=rows) if rows is not None else none)
        if k == "t" and a["exact"]:
            t = text(o["text"], g)
            R.append(dict(base, kind="text", text=[dict(id=y["id"], name=y["name"], **{"is": [W(q) for q in y["is"]], "p": W(y["p"]), "ps": [W(q) for q in y["ps"]], "init": [W(q) for q in y["init"]], "dur": [W(q) for q in y["dur"]]}) for y in t]) if t is not None else none)
        if k == "k" and a["exact"]:
            b = tikz(o["tikz"], g)
            R.append(dict(base, kind="list", style=["box"] * 3, boxes=[dict(y, start=W(y["start"]), dur=W(y["dur"]), period=-1 if y["period"] == -1 else W(y["period"])) for y in b]) if b is not None else none)
        if k == "d" and a["exact"]:
            b = dot(o["dot"], g, a["xs"], a["ys"])
            R.append(dict(base, kind="list", until=a["until"] * D if a["until"] else -2, style=["full", "full", "empty"], height=b[1], boxes=[dict(y, start=W(y["start"]), dur=W(y["dur"])) for y in b[0]]) if b is not None else none)
    return R
def check(c):
    exe = c.driver("drawing"); rng = c.rng; cases = []
    def opts(by, exact): return dict(by=by, order="".join(rng.sample("atkd", 4)) if exact else "a", line=rng.choice([1, 7, 20, 40, 60]), until=rng.choice([0, 1, 5, 13, 30]), xs=rng.choice([1, 1, 2, 10]), ys=rng.choice([1, 2, 10]), twice=rng.choice([0, 0, 1]), exact=int(exact))
    for k in range(c.n(260, 3000)):
        g = gen.random_graph(rng, n=rng.randint(1, 4) if k % 9 else rng.randint(5, 12), init=.4, selfloop=.2, maxph=4 if k % 7 else 9, zero_dur=rng.random() < .3, maxdur=rng.choice([3, 6]), reent0=.3)
        den = rng.choice([1, 1, 1, 2, 4, 5]); L = []
        for t in g.tasks:
            a = len(t["init"]) + rng.choice([0, 0, 1, 3]); m = len(t["dur"]) * rng.randint(1, 3) if rng.random() < .85 else rng.randint(1, 5)
            loose = t["reent"] == 0 and rng.random() < .5
            x = rng.randint(0, 4 * den); st = []
            for j in range(a + m):
                d = t["init"][j] if j < len(t["init"]) else t["dur"][(j - len(t["init"])) % len(t["dur"])]
                st.append(Fraction(x, den)); x += (0 if loose else d * den) + rng.choice([0, 0, 1, 2, den, 3 * den])
            p = Fraction(x, den) - st[a] if a < len(st) else Fraction(1)
            p = max(p, Fraction(1, den)) + Fraction(rng.choice([0, 0, 1, den]), den)
            f = lambda v: format(float(v), ".6g")
            L.append(f"{a} " + " ".join(f(v) for v in st[:a]) + f" {f(p)} {m} " + " ".join(f(v) for v in st[a:]))
        o = opts("given", True); i = f"g{k}"
        cases.append((i, drv.case_text(i, g, o, L), (g, o)))
    for k in range(c.n(160, 2000)):
        g = gen.random_graph(rng, n=rng.randint(1, 4), init=.3, selfloop=.2, maxph=3, zero_dur=False, strongly=True, reent0=.2)
        o = opts(rng.choice(["1P", "KP", "SP"]), False); i = f"l{k}"
        if o["by"] == "SP" and any(t["init"] for t in g.tasks): o["by"] = "1P"
        cases.append((i, drv.case_text(i, g, o), (g, o)))
    vf.pipeline(c, "Drawing", exe, cases, rec, "drawing")
