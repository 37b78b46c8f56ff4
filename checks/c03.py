import thr, drv, vf
EXACT = {"NKPeriodicThroughput": ("eq", 20000, 6e-10), "EGN": ("eq", 20000, 6e-10), "LPN": ("eq", 20000, 6e-10), "BufferlessKPeriodicScheduling": ("eq", 20000, 6e-10)}
SDF = dict(EXACT, deGrooteThroughput=("eq", 900, 6e-7), deGrooteCleanThroughput=("eq", 900, 6e-7))
def check(c):
    exe = c.driver("analyse")
    for name, count, keep, kw, algos in [("mixed", 900, 120, dict(limit=400), EXACT),
                               ("strong", 900, 80, dict(strongly=True, limit=500), EXACT),
                               ("multirate", 700, 50, dict(strongly=True, maxq=6, maxph=2, limit=500), EXACT),
                               ("circuits", 800, 20, dict(qs=[1, 2, 3, 4, 6], maxph=2, strongly=True, extra=3, n=4, limit=900, tight=0.6), EXACT),
                               ("sdf", 900, 100, dict(maxph=1, limit=400), SDF),
                               ("sdfstrong", 900, 80, dict(maxph=1, strongly=True, n=4, limit=500, tight=0.3), SDF),
                               ("wide", 200, 15, dict(n=9, maxq=2, maxph=2, limit=800), EXACT), ("phased", 200, 15, dict(n=3, maxph=8, maxq=2, limit=800), EXACT),
                               ("rates", 200, 15, dict(n=3, qs=[3, 5, 7, 8], maxph=1, strongly=True, limit=1200), SDF),
                               ("zero", 700, 50, dict(zero_dur=True, strongly=True, limit=400, idle=.3), EXACT), ("zerosdf", 700, 50, dict(zero_dur=True, maxph=1, limit=400), EXACT)]:
        gs = thr.pool(c, name, c.n(count, count * 10), **dict(dict(zero_dur=False), **kw))
        gs = [x for x in gs if x[1][0] > 0 or not kw.get("zero_dur")]     # firings that take no time: live graphs only (DESIGN section 4)
        cases = [(f"{name}{k}", drv.case_text(f"{name}{k}", g, {"algo": " ".join(algos)}), (g, e)) for k, (g, e) in enumerate(gs)]
        vf.pipeline(c, "Throughput", exe, cases, lambda x, r: thr.rec(x[0], r, algos), "analyse", pre=(c.n(keep, keep * 12), thr.off(algos)))
