import drv, vf
import c01
def rec(g, r):
    o = r["out"]
    return dict(graph=g.js(), kind="norm", ok=c01.okval(r), z=o.get("z", []), an=o.get("an", []), ad=o.get("ad", []), flag=1 if o.get("flag") else 0)
def check(c):
    exe = c.driver("basics")
    cases = [(f"r{k}", drv.case_text(f"r{k}", g, {"what": "norm"}), g) for k, g in enumerate(c01.graphs(c.rng, c.n(1500, 15000), norm=True))]
    vf.pipeline(c, "Repetition", exe, cases, rec, "basics")
