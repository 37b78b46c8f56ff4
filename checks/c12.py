import drv, vf, gen
import xml.etree.ElementTree as ET
from xml.sax.saxutils import quoteattr
from decimal import Decimal
def num(s):
    """the exact decimal text of a number"""
    x = Decimal(str(s).strip()).normalize()
    return format(x, "f") if x else "0"
def term(s):
    p = s.split("*")
    return dict(n=int(p[0]), v=num(p[1])) if len(p) == 2 else dict(n=1, v=num(p[0]))
def terms(s):
    p = s.split(";")
    if len(p) == 1: return [], [term(x) for x in p[0].split(",")]
    return [term(x) for x in p[0].split(",") if x], [term(x) for x in p[1].split(",")]
def doc(text):
    root = ET.fromstring(text.encode("utf-8")); ag = root.find("applicationGraph")
    s = ag.find("csdf"); s = s if s is not None else ag.find("sdf")
    pr = ag.find("csdfProperties"); pr = pr if pr is not None else ag.find("sdfProperties")
    acts = []
    for a in s.findall("actor"):
        ps = []
        for p in a.findall("port"):
            i, e = terms(p.get("rate")); ps.append(dict(name=p.get("name"), dir=p.get("type"), ini=i, per=e))
        acts.append(dict(name=a.get("name"), type=a.get("type") or "", ports=ps))
    ch = [dict(name=c.get("name"), src=c.get("srcActor"), sport=c.get("srcPort"), dst=c.get("dstActor"), dport=c.get("dstPort"), size=num(c.get("size")) if c.get("size") else "", m0=num(c.get("initialTokens")) if c.get("initialTokens") else "") for c in s.findall("channel")]
    ti = []
    for a in pr.findall("actorProperties"):
        e = a.find("processor").find("executionTime"); i, p = terms(e.get("time")); ti.append(dict(actor=a.get("actor"), ini=i, per=p))
    return dict(kind="doc", d=dict(app=ag.get("name") or "", name=s.get("name") or "", type=s.get("type") or "", actors=acts, chans=ch, times=ti))
def graph(o):
    d = o["dump"]; nm = {t["id"]: t["name"] for t in d["tasks"]}
    L = lambda v: [num(x) for x in v]
    return dict(kind="graph", g=dict(app=o["app"], name=o["name"], type=o["type"],
        tasks=[dict(name=t["name"], type=y, reent=t["reent"], init=L(t["init"]), dur=L(t["dur"])) for t, y in zip(d["tasks"], o["types"])],
        chans=[dict(name=c["name"], src=nm[c["src"]], dst=nm[c["dst"]], pi=L(c["pi"]), pp=L(c["pp"]), ci=L(c["ci"]), cp=L(c["cp"]), m0=num(c["m0"]), ts=num(c["ts"])) for c in d["chans"]]))
def rec(x, r):
    steps, first = x
    ch = [doc(first)] if first else []
    for a in r["out"].get("chain", []):
        if a["kind"] == "graph": ch.append(graph(a))
        elif a["kind"] == "doc":
            try: ch.append(doc(a["text"]))
            except Exception: break
        else: break
    return dict(steps=steps, chain=ch or [dict(kind="graph", g=dict(app="", name="", type="", tasks=[], chans=[]))])
ODD = ["a&b", "x<y", 'q"r', "it's", "two words", "a;b", "a*b", "c,d", "R", "in_1", "Rt1", "é", "1", "-", "a/b", "&amp;"]
def dress(rng, g):
    for t in g.tasks:
        t["reent"] = rng.choice([0, 1])
        f = rng.choice([lambda: rng.randint(0, 9), lambda: rng.randint(0, 10 ** 9), lambda: rng.randint(0, 10 ** rng.randint(9, 15)), lambda: Decimal(rng.randint(0, 10 ** 7)) / 8, lambda: Decimal(rng.randint(0, 10 ** 9)) / 1024])
        t["dur"] = [f() for _ in t["dur"]]; t["init"] = [f() for _ in t["init"]]
    for c in g.chans:
        c["ts"] = rng.choice([0, 1, 2, 7, 10 ** 10]); 
        if rng.random() < .1: c["m0"] += 10 ** rng.randint(3, 15)
    if rng.random() < .3:
        t = rng.choice(g.tasks); n = len(t["dur"]); g.chan(t["id"], t["id"], [1] * n, [1] * n, rng.choice([0, 1, 1, 2]), [1] * len(t["init"]), [1] * len(t["init"]), id=max([c["id"] for c in g.chans] + [0]) + 1)
def names(rng, g):
    a = {}
    if rng.random() < .4:
        pick = rng.sample(ODD, len(ODD))
        for t in g.tasks: a[f"V_{t['id']}"] = pick.pop()
        pick = rng.sample(ODD, len(ODD))
        for c in g.chans:
            if pick: a[f"E_{c['id']}"] = pick.pop()
    for t in g.tasks: a[f"Y_{t['id']}"] = rng.choice(ODD + ["", ""])
    if rng.random() < .3: a["app"] = rng.choice(ODD + [""]); a["type"] = rng.choice(ODD + [""])
    return a
def squeeze(rng, v):
    """a list of numbers in SDF3 notation"""
    o = []; i = 0
    while i < len(v):
        j = i
        while j < len(v) and v[j] == v[i]: j += 1
        n = rng.randint(1, j - i)
        o.append(f"{n}*{v[i]}" if n > 1 or rng.random() < .2 else f"{v[i]}"); i += n
    return ",".join(o)
def text(rng, g):
    """a document for g, in one of the accepted styles"""
    k = rng.choice(["csdf", "csdf", "sdf"]); Q = lambda s: quoteattr(str(s)).replace("\n", " ")
    ports = {t["id"]: [] for t in g.tasks}; ch = []
    both = lambda i, p: (squeeze(rng, i) + ";" if i else "") + squeeze(rng, p)
    def attrs(L): rng.shuffle(L); return " ".join(f"{a}={Q(v)}" for a, v in L)
    style = rng.choice(["local", "global"])
    def add(c, t1, t2):
        sp = f"p{len(ports[c['src']])}" if style == "local" else f"o{c['name']}"
        ports[c["src"]].append(attrs([("name", sp), ("type", "out"), ("rate", both(c["pi"], c["pp"]))]))
        dp = f"p{len(ports[c['dst']])}" if style == "local" else f"i{c['name']}"
        ports[c["dst"]].append(attrs([("name", dp), ("type", "in"), ("rate", both(c["ci"], c["cp"]))]))
        L = [("name", c["name"]), ("srcActor", t1), ("srcPort", sp), ("dstActor", t2), ("dstPort", dp)]
        if c["ts"] != 1 or rng.random() < .5: L.append(("size", c["ts"]))
        if c["m0"] != 0 or rng.random() < .5: L.append(("initialTokens", c["m0"]))
        ch.append(f"<channel {attrs(L)}/>")
    nm = {t["id"]: t["name"] for t in g.tasks}
    for c in g.chans: add(c, nm[c["src"]], nm[c["dst"]])
    for t in g.tasks:
        if t["reent"]:
            n = len(t["dur"]); add(dict(name="loop_" + t["name"], src=t["id"], dst=t["id"], pp=[1] * n, cp=[1] * n, pi=[1] * len(t["init"]), ci=[1] * len(t["init"]), ts=1, m0=1), t["name"], t["name"])
    acts = []
    for t in g.tasks:
        p = ports[t["id"]]; rng.shuffle(p)
        acts.append(f"<actor {attrs([('name', t['name']), ('type', 'a')])}>" + "".join(f"<port {x}/>" for x in p) + "</actor>")
    rng.shuffle(ch); rng.shuffle(acts)
    body = acts + ch if rng.random() < .7 else ch + acts
    pr = [f"<actorProperties actor={Q(t['name'])}><processor type='p' default='true'><executionTime time={Q(both(t['init'], t['dur']))}/></processor></actorProperties>" for t in g.tasks]
    rng.shuffle(pr)
    return [f"<sdf3 type='{k}' version='1.0'>", "<applicationGraph name='app'>", f"<{k} name='n' type='T'>"] + body + [f"</{k}>", f"<{k}Properties>"] + pr + [f"</{k}Properties>", "</applicationGraph></sdf3>"]
def check(c):
    exe = c.driver("xml"); rng = c.rng
    cases = []
    for k in range(c.n(700, 8000)):
        g = gen.random_graph(rng, n=rng.randint(1, 4) if k % 8 else rng.randint(5, 14), init=.3, selfloop=.3, maxph=4 if k % 7 else 15); dress(rng, g)
        turns = rng.choice([1, 2, 2, 3]); i = f"g{k}"
        cases.append((i, drv.case_text(i, g, dict(start="graph", turns=turns, file=int(k % 5 == 0), **names(rng, g))), (1 + 2 * turns, None)))
    for k in range(c.n(700, 8000)):
        g = gen.random_graph(rng, n=rng.randint(1, 4) if k % 8 else rng.randint(5, 14), init=.3, selfloop=.3, maxph=5 if k % 7 else 15); dress(rng, g)
        L = text(rng, g); turns = rng.choice([0, 1]); i = f"d{k}"
        cases.append((i, drv.case_text(i, None, dict(start="doc", turns=turns, file=int(k % 5 == 0)), L), (2 + 2 * turns, "\n".join(L))))
    vf.pipeline(c, "Sdf3", exe, cases, rec, "xml")
