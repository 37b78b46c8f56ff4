import thr, drv, vf
def check(c):
    exe = c.driver("analyse")
    A = {"SymbExec": ("eq", 20000, 6e-10)}
    for name, count, keep, kw in [("mixed", 1500, 200, dict(zero_dur=False, limit=500)),
                        ("strong", 1500, 120, dict(zero_dur=False, strongly=True, limit=700)),
                        ("multirate", 1000, 60, dict(zero_dur=False, strongly=True, maxq=6, maxph=2, limit=600)),
                        ("parts", 800, 60, dict(zero_dur=False, strongly=False, n=6, extra=4, selfloop=0.5, limit=600)),
                        ("chains", 800, 60, dict(zero_dur=False, strongly=False, n=5, extra=1, maxph=3, maxdur=9, limit=900)),
                        ("wide", 300, 25, dict(zero_dur=False, n=11, maxq=2, maxph=2, limit=900)), ("phased", 300, 25, dict(zero_dur=False, n=3, maxph=9, maxq=2, limit=900)),
                        ("rates", 300, 25, dict(zero_dur=False, n=3, qs=[3, 5, 7, 8, 9, 11], maxph=2, limit=1500)), ("long", 300, 20, dict(zero_dur=False, n=3, maxdur=60, strongly=True, limit=1500)),
                        ("zero", 600, 60, dict(zero_dur=True, strongly=True, limit=500, idle=.3))]:
        gs = thr.pool(c, name, c.n(count, count * 10), **kw)
        cases = [(f"{name}{k}", drv.case_text(f"{name}{k}", g, {"algo": "SymbExec"}), (g, e)) for k, (g, e) in enumerate(gs)]
        vf.pipeline(c, "Throughput", exe, cases, lambda x, r: thr.rec(x[0], r, A), "analyse", pre=(c.n(keep, keep * 12), thr.off(A)))
