import drv, vf
def big(x):
    m = []; a = abs(x)
    while a: m.append(a % 10000); a //= 10000
    return dict(neg=x < 0, mag=m)
def egcd(a, b):
    """x, y with a x + b y = gcd"""
    x0, x1, y0, y1, r0, r1 = 1, 0, 0, 1, a, b
    while r1:
        k = r0 // r1; r0, r1 = r1, r0 - k * r1; x0, x1 = x1, x0 - k * x1; y0, y1 = y1, y0 - k * y1
    return (x0, y0, r0) if r0 > 0 else (-x0, -y0, -r0)
LIM = 2 ** 62
STEP = ("floor", "ceil", "flooru", "ceilu", "below", "above", "modulo", "whole")
def history(rng, steps):
    mode = rng.choice(["small", "mid", "big"])
    top = dict(small=12, mid=40000, big=2 ** 30)[mode]
    val = lambda lo, hi: rng.choice([rng.randint(lo, hi), rng.randint(max(lo, -9), min(hi, 9))])
    ops = []; rn, rd = 0, 1
    from fractions import Fraction as F
    r = F(0)
    for k in range(steps):
        w = "set" if k == 0 else rng.choice(["set", "mul", "mul", "div", "cmp", "cmp", "floor", "ceil", "flooru", "ceilu", "below", "above", "modulo", "euclid", "whole"])
        n, d, e = val(-top, top), val(1, top), 0
        if rng.random() < .3: d = 1
        if w == "set":
            if rng.random() < .3: d = -d
            r = F(n, d)
        elif w in ("mul", "div"):
            if w == "div":
                if n == 0: n = 1
                if rng.random() < .5 and r != 0: n, d = r.numerator * rng.choice([1, 2, 3]), max(1, abs(r.denominator))      # a large common factor
                if n == 0 or abs(n) > LIM // 8 or d > LIM // 8: n, d = 3, 2
            f = F(n, d); g = r * f if w == "mul" else r / f
            if abs(r.numerator * (f.numerator if w == "mul" else f.denominator)) > LIM or abs(r.denominator * (f.denominator if w == "mul" else f.numerator)) > LIM: w, n, d = "set", 5, 7; g = F(5, 7)
            r = g
        elif w == "cmp":
            if rng.random() < .6:      # close to the register, or equal to it
                n, d = r.numerator * 3 + rng.choice([0, 0, 1, -1]), r.denominator * 3
                if rng.random() < .5: n, d = r.numerator + rng.choice([0, 1, -1]), r.denominator
                if rng.random() < .3: n, d = r.numerator // r.denominator + rng.choice([0, 0, 1]), 1
            if abs(n) > LIM or d > LIM: n, d = 1, 1
        elif w in STEP:
            if rng.random() < .4: n = val(-10 ** 6, 10 ** 6) * d + rng.choice([0, 0, 1, -1])
        elif w == "euclid":
            n = n or 1; n, d = abs(n), abs(d); import math
            e = math.gcd(n, d) * val(-50, 50)
            if mode == "big": n, d = n % 40000 + 1, d % 40000 + 1; e = math.gcd(n, d) * val(-50, 50)
        ops.append((w, n, d, e))
    return ops
def rec(ops, r):
    out = r["out"].get("res", [])
    if len(out) != len(ops): return dict(ops=[dict(k="set", n=big(0), d=big(1), c=big(0), rn=big(0), rd=big(0), x=big(0), y=big(0), w=big(0), q=big(0), ans=[])])
    L = []
    for (k, n, d, e), (rn, rd, w, q, ans) in zip(ops, out):
        x, y, _ = egcd(rn, rd) if rd else (0, 0, 0)
        if k in STEP[:6]: q = w // d
        if k == "modulo": q = (n - w) // d
        if k == "whole": q = n // d
        L.append(dict(k=k, n=big(n), d=big(d), c=big(e), rn=big(rn), rd=big(rd), x=big(x), y=big(y), w=big(w), q=big(q), ans=ans))
    return dict(ops=L)
def check(c):
    exe = c.driver("exact")
    cases = []
    for k in range(c.n(1500, 20000)):
        ops = history(c.rng, 25)
        cases.append((f"x{k}", drv.case_text(f"x{k}", None, {}, [" ".join(map(str, o)) for o in ops]), ops))
    vf.pipeline(c, "Exact", exe, cases, rec, "exact")
