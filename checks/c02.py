import thr, drv, vf
ALGOS = {"KPeriodicThroughput": ("eq", 20000, 6e-10)}
FAM = [("mixed", 1500, 200, dict()),
       ("auto", 600, 60, dict(maxph=1, reent0=0.4, strongly=True)),
       ("large", 600, 40, dict(n=6, maxq=3, limit=1500, strongly=True)),
       ("multirate", 1500, 60, dict(maxq=6, maxph=2, strongly=True)),
       ("circuits", 3000, 40, dict(qs=[1, 2, 3, 4, 6, 12], maxph=1, strongly=True, extra=3, n=4, limit=1200, tight=0.6)),
       ("wide", 300, 20, dict(n=10, maxq=2, maxph=2, limit=900)), ("phased", 400, 25, dict(n=3, maxph=9, maxq=2, limit=900)),
       ("rates", 400, 25, dict(n=3, qs=[3, 5, 7, 8, 9, 11], maxph=2, limit=1500)),
       ("zero", 900, 60, dict(zero_dur=True, strongly=True, idle=.3)), ("zeros", 600, 40, dict(zero_dur=True, qs=[1, 2, 3, 4, 6], maxph=2))]     # firings that take no time: live graphs only (DESIGN section 4)
def check(c):
    exe = c.driver("analyse")
    for name, count, keep, kw in FAM:
        gs = thr.pool(c, name, c.n(count, count * 10), **dict(dict(limit=600, zero_dur=False), **kw))
        gs = [x for x in gs if x[1][0] > 0 or not kw.get("zero_dur")]
        cases = [(f"{name}{k}", drv.case_text(f"{name}{k}", g, {"algo": "KPeriodicThroughput"}), (g, e)) for k, (g, e) in enumerate(gs)]
        vf.pipeline(c, "Throughput", exe, cases, lambda x, r: thr.rec(x[0], r, ALGOS), "analyse", pre=(c.n(keep, keep * 12), thr.off(ALGOS)))
