import drv, vf, gen, tlc
def graph(D):
    g = gen.Graph("h"); g.task("a", [1]); g.task("b", [1])
    for _ in range(D): g.chan(1, 2, [1], [1], 0)
    return g
def rec(ops, r):
    return dict(ops=ops, obs=r["out"].get("obs", []))
def check(c):
    exe = c.driver("dset")
    r = c.tlc("DistSetModel", consts=dict(D="2", M=c.n("3", "4"), T=c.n("2", "3")))
    if r["violations"]: raise tlc.SpecError("the machine itself is wrong: " + str(r["violations"][:1]))
    for D, M, num, steps in ((2, 3, c.n(250, 3000), 24), (3, 2, c.n(150, 2000), 24), (2, 3, c.n(20, 200), 90)):
        co = dict(D=str(D), M=str(M), T="4")
        hs = tlc.simulate("DistSetGen", num, steps + 1, c.seed * 97 + D + steps, consts=dict(co, Steps=str(steps)))
        cases = [(f"h{D}_{steps}_{k}", drv.case_text(f"h{D}_{steps}_{k}", graph(D), {}, [" ".join([o["k"], str(o["n"])] + [str(x) for x in o["v"]]) for o in h]), h) for k, h in enumerate(hs)]
        vf.pipeline(c, "DistSetReplay", exe, cases, rec, "dset", consts=co)
