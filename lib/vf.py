"""What every check shares: seeds, evidence, verdicts, replay files, number conversion."""
import os, sys, json, time, random, hashlib, traceback, re
from fractions import Fraction
import kbuild, drv, tlc
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def frac(s, maxden=20000, rel=6e-9, ab=6e-10):
    """printed number -> [num, den] exactly as TLA+ will use it.  The value is replaced by the simplest
    fraction only if it lies within the printing error; anything else stays a (wrong) decimal, and
    values no execution can have become <<-1,1>> (nan, huge) or <<1,0>> (inf)."""
    if s is None: return [-1, 1]
    t = str(s).lower()
    if "nan" in t: return [-1, 1]
    if "inf" in t: return [-1, 1] if t.startswith("-") else [1, 0]
    x = Fraction(t) if "e" not in t else Fraction(float(t))
    if abs(x) > 30000: return [1, 0] if x > 0 else [-1, 1]
    f = x.limit_denominator(maxden)
    if abs(f - x) <= max(Fraction(rel) * abs(x), Fraction(ab)) and abs(f.numerator) < 60000: return [f.numerator, f.denominator]
    f = x.limit_denominator(997)     # not a value of the expected size: keep an approximation that differs from every such value
    return [f.numerator * 7 + 1, f.denominator * 7]

class Ctx:
    def __init__(self, cid, level):
        self.id = cid; self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random(self.seed * 1000003 + int(hashlib.sha1(cid.encode()).hexdigest()[:6], 16))
        self.t0 = time.time(); self.thorough = self.tier == "thorough"
        self.states = 0; self.trans = 0; self.traces = 0; self.samples = []; self.viol = []; self.assume = []; self.notes = {}
        self.known = load_known(cid)
        self.known_hit = []
    def sub(self, name):
        return random.Random(f"{self.seed}-{self.id}-{name}")
    def n(self, quick, thorough):
        return thorough if self.thorough else quick
    def elapsed(self): return time.time() - self.t0
    def driver(self, name, only=None, mode="release"):
        return kbuild.build(name, only, mode)
    def tlc(self, module, data=None, **k):
        r = tlc.run(module, data, **k)
        self.states += r["distinct"]; self.trans += r["states"]
        return r
    def sample(self, s):
        if len(self.samples) < 6: self.samples.append(s)
    def violation(self, msg, replay):
        """replay: any JSON value that lets someone repeat it (case text, driver, spec module)"""
        d = os.path.join(VERIF, ".build", "replay"); os.makedirs(d, exist_ok=True)
        b = json.dumps(dict(property=self.id, what=msg, **replay), indent=1)
        p = os.path.join(d, f"{self.id}-{hashlib.sha1(b.encode()).hexdigest()[:10]}.json")
        open(p, "w").write(b)
        self.viol.append(dict(what=msg, replay=p))
        print(f"# {msg[:500]}")
        print(f"VIOLATION property={self.id} replay={p}", flush=True)
    def finding(self, key):
        """a violation identified by key: True when it is listed as a known finding"""
        if key in self.known:
            if key not in self.known_hit:
                self.known_hit.append(key); print(f"KNOWN-FINDING: property={self.id} {self.known[key]}")
            return True
        return False

def load_known(cid):
    r = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == cid: r[m.group(2)] = m.group(3)
    return r

def main(cid, level, body):
    c = Ctx(cid, level)
    try:
        body(c)
    except kbuild.BuildError as e:
        print("BUILD FAILED\n" + str(e)); sys.exit(2)
    ev = dict(property=cid, tier=c.tier, seed=c.seed, level=level,
              coverage=dict(states=c.states, transitions=c.trans, traces_validated_against_impl=c.traces, samples=c.samples or ["none"], **c.notes),
              assumptions=c.assume, violations=c.viol, wall_s=round(time.time() - c.t0, 2))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", cid + ".json"), "w"), indent=1)
    print(f"{cid} {c.tier}: {c.traces} recorded behaviours, {c.states} states, {c.trans} transitions, {len(c.viol)} violations, {ev['wall_s']} s")
    sys.exit(1 if c.viol else 0)

# ------------------------------------------------------------------ the usual pipeline
def gis(res, var="gi"):
    """record index -> set of violated invariants"""
    r = {}
    for name, st in res["violations"]:
        v = tlc.var(st, var)
        r.setdefault(int(v.split()[0]) if v is not None else 0, []).append((name, st))
    return r

def pipeline(c, module, exe, cases, torec, driver, timeout=10, consts=None, env=None, cfg=None, retries=2, maxrep=5, key=None, pre=None, **tk):
    """cases: list of (id, text, extra).  torec(extra, driver-record) -> TLA+ record (or None to skip).
    Every record is decided by TLC; a violating one is executed and decided again before it is reported.
    pre = (keep, suspicious): steering.  All cases are executed, TLC decides those an estimate finds
    suspicious (at most 60) and `keep` others."""
    if c.viol and c.elapsed() > 60: return []      # the verdict is known
    out = drv.run(exe, [(i, t) for i, t, _ in cases], timeout=timeout, env=env)
    cases = [x for x in cases if (out.get(x[0]) or {}).get("status") != "skipped"]
    if pre:
        keep, sus = pre; a = []; b = []
        for cs in cases: (a if sus(cs[2], out.get(cs[0]) or dict(status="lost", out={})) else b).append(cs)
        c.notes["executed_by_the_code"] = c.notes.get("executed_by_the_code", 0) + len(cases)
        cases = a[:60] + b[:keep]
    recs = []; src = []
    for cs in cases:
        r = out.get(cs[0]) or dict(status="lost", out={})
        rec = torec(cs[2], r)
        for x in (rec if isinstance(rec, list) else [rec] if rec is not None else []): recs.append(x); src.append(cs)
    if not recs: return []
    res = c.tlc(module, recs, consts=consts, cfg=cfg, **tk)
    c.traces += len(recs)
    for s in src[:2]: c.sample(s[1][:600])
    bad = gis(res); reported = []
    for gi in sorted(bad):
        if gi == 0: raise tlc.SpecError("violation without a record index:\n" + res["out"][-3000:])
        if len(reported) >= maxrep or (reported and c.elapsed() > 60): break
        cs = src[gi - 1]; names = [n for n, _ in bad[gi]]
        again = False
        for _ in range(retries):
            o2 = drv.run(exe, [(cs[0], cs[1])], jobs=1, timeout=timeout * 3, env=env).get(cs[0]) or dict(status="lost", out={})
            rec = torec(cs[2], o2)
            if not rec: continue
            r2 = tlc.run(module, rec if isinstance(rec, list) else [rec], consts=consts, cfg=cfg, **tk)
            if r2["violations"]: again = True; break
        if not again: print(f"# case {cs[0]}: not repeated, ignored ({names})"); continue
        if key and c.finding(key(cs, o2, rec)): continue
        c.violation(f"{module}: {sorted(set(names))} violated by the recorded answers of case {cs[0]}: {json.dumps(o2)[:300]}",
                    dict(driver=driver, case=cs[1], recorded=o2, tla_module=module, tla_record=rec, violated=sorted(set(names)), state=bad[gi][0][1][:2000],
                         howto=f"python3 lib/kbuild.py {driver}; feed 'case' to the driver's stdin; the module decides 'tla_record'"))
        reported.append(gi)
    return reported

def decide(c, module, items, again, driver, text, maxrep=5, retries=2, key=None, **tk):
    """items: [(case key, [TLA+ records])].  again(key) -> (records, answers): executes the case once more.
    Like pipeline, for cases whose records come from several executions."""
    if c.viol and c.elapsed() > 60: return []
    recs = [r for _, rs in items for r in rs]; src = [k for k, rs in items for _ in rs]
    if not recs: return []
    res = c.tlc(module, recs, **tk)
    c.traces += len(recs)
    for k, _ in items[:1]: c.sample(text(k)[:600])
    bad = gis(res); seen = []; reported = []
    for gi in sorted(bad):
        if gi == 0: raise tlc.SpecError("violation without a record index:\n" + res["out"][-3000:])
        k = src[gi - 1]
        if k in seen: continue
        seen.append(k)
        if len(reported) >= maxrep or (reported and c.elapsed() > 60): break
        hit = None
        for _ in range(retries):
            rs, ans = again(k)
            r2 = tlc.run(module, rs, **tk)
            if r2["violations"]: hit = gis(r2); break
        if not hit: print(f"# case {k}: not repeated, ignored"); continue
        g2 = sorted(hit)[0]; names = sorted({n for v in hit.values() for n, _ in v}); rec = rs[g2 - 1]
        if key and c.finding(key(k, ans, rec)): continue
        c.violation(f"{module}: {names} violated by the recorded answers of case {k}: {json.dumps(ans)[:300]}",
                    dict(driver=driver, case=text(k), recorded=ans, tla_module=module, tla_record=rec, violated=names, state=hit[g2][0][1][:2000],
                         howto=f"python3 lib/kbuild.py {driver}; feed 'case' to the driver's stdin; the module decides 'tla_record'"))
        reported.append(k)
    return reported
