import drv, vf, tlc
def line(o):
    f = lambda v: ",".join(map(str, v))
    rs = "/".join(f"{r['c']}:{f(r['p'])}:{f(r['q'])}" for r in o["rs"])
    return " ".join([f"{k}={o[k]}" for k in ("k", "why", "name", "new", "id", "src", "dst", "m", "r")] + [f"{k}={f(o[k])}" for k in ("x", "xi", "pi", "pp", "ci", "cp")] + [f"rs={rs}"])
def obs(o, sc, op):
    down = lambda x: x // sc if x % sc == 0 else -1 - x % 1000
    half = lambda x: int(float(x) * 2) if float(x) * 2 == int(float(x) * 2) else -1
    for t in o["tasks"]:
        t["init"] = [half(x) for x in t["init"]]; t["dur"] = [half(x) for x in t["dur"]]
    for c in o["chans"]:
        for k in ("pi", "pp", "ci", "cp"): c[k] = [down(x) for x in c[k]]
        for k in ("m0", "tin", "tout"): c[k] = down(c[k])
    if op["k"] == "gcd": o["ans"] = down(o["ans"])
    return o
def rec(x, r):
    ops, sc = x
    return dict(ops=ops, obs=[obs(o, sc, p) for o, p in zip(r["out"].get("obs", []), ops)])
def check(c):
    exe = c.driver("edit")
    for num, steps, sc in ((c.n(240, 3000), 30, 1), (c.n(40, 400), 30, 3000000000), (c.n(40, 400), 100, 1)):
        hs = tlc.simulate("EditGen", num, steps + 1, c.seed * 31 + steps + sc % 7, consts=dict(Steps=str(steps)))
        cases = []
        for k, h in enumerate(hs):
            i = f"h{steps}_{k}_{sc}"
            cases.append((i, drv.case_text(i, None, dict(scale=sc), [line(o) for o in h]), (h, sc)))
        vf.pipeline(c, "EditReplay", exe, cases, rec, "edit", timeout=40)
