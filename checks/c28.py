"""C28: the table, the drawings and the generated program of a graph describe that graph."""
import os, re, shutil
import drv, vf, gen, kbuild
from decimal import Decimal
def num(s):
    x = Decimal(str(s).strip()).normalize()
    return format(x, "f") if x else "0"
L = lambda v: [num(x) for x in v]
def small(v):
    try: k = [int(Decimal(str(x))) for x in v]
    except Exception: return []
    return k if all(abs(x) < 10 ** 6 for x in k) and all(Decimal(str(x)) == y for x, y in zip(v, k)) else []
def graph(o, which="before"):
    d = o[which]; ty = o["etypes"]
    return dict(app=o["app"], name=o["name"], type=o["type"],
        tasks=[dict(id=str(t["id"]), name=t["name"], reent=str(t["reent"]), ninit=str(t["ninit"]), nph=str(t["nph"]), init=L(t["init"]), dur=L(t["dur"]), idur=small(t["dur"]), map="-1") for t in d["tasks"]],
        chans=[dict(id=str(c["id"]), name=c["name"], src=str(c["src"]), dst=str(c["dst"]), pi=L(c["pi"]), pp=L(c["pp"]), ci=L(c["ci"]), cp=L(c["cp"]), m0=num(c["m0"]), ts=num(c["ts"]), kind=k, ipp=small(c["pp"]), icp=small(c["cp"]), route="{}") for c, k in zip(d["chans"], ty)])
CALL = re.compile(r"^\s*(?:auto\s+new_(vertex|edge)\s*=\s*)?new_graph->(\w+)\s*\((.*)\)\s*;\s*$")
LOOK = re.compile(r"new_graph->getVertexById\s*\(\s*(-?\d+)\s*\)")
def script(text):
    """the calls of a generated program, in order"""
    out = []; cur = ""; body = False
    for l in text.splitlines():
        l = l.strip()
        if not l or l.startswith("//") or l in "{}" or l.startswith("std::cout"): continue
        if re.match(r"models::Dataflow\s*\*\s*generateGraph\s*\(\s*\)\s*\{$", l): body = True; continue
        if re.match(r"models::Dataflow\s*\*\s*new_graph\s*=\s*new\s+models::Dataflow\s*\(\s*\)\s*;$", l): out.append(dict(op="new", cur="", v=[])); continue
        if re.match(r"return\s+new_graph\s*;$", l): out.append(dict(op="return", cur="", v=[])); continue
        m = CALL.match(l)
        if not m: out.append(dict(op="?" + l[:60], cur="", v=[])); continue
        a = LOOK.sub(r"\1", m.group(3))
        if m.group(1): cur = m.group(1)
        a = re.sub(r"^\s*new_(vertex|edge)\s*,\s*", lambda k: "" if k.group(1) == cur else "WRONG ", a)
        q = re.match(r'^\s*"(.*)"\s*$', a)
        if q: v = [q.group(1)]
        else:
            v = [x.strip() for x in a.strip().strip("{}").split(",") if x.strip()]
            v = [re.sub(r"^(?:EDGE_TYPE|models::EDGE_TYPE)::", "", x) for x in v]
            v = [num(x.rstrip("Ll")) if re.match(r"^-?[\d.]+(e[+-]?\d+)?L?$", x) else x for x in v]
        out.append(dict(op=m.group(2), cur=cur, v=v))
    return out if body else [dict(op="?no function", cur="", v=[])]
def vec(s):
    s = s.strip()
    s = s[1:-1] if s.startswith("{") else s
    return L([x for x in s.split(",") if x.strip()])
def both(s):
    p = s.split(";")
    return (vec(p[0].strip().strip("()")), vec(p[1])) if len(p) == 2 else ([], vec(p[0]))
NODE = re.compile(r'^\s*t_(\d+)\s*\[.*?\blabel\s*=\s*"([^"]*)"\s*\]\s*;', re.S | re.M)
EDGE = re.compile(r'^\s*t_(\d+)\s*->\s*t_(\d+)\s*\[\s*label="([^"]*)",\s*headlabel="([^"]*)",\s*taillabel="([^"]*)",\s*\]\s*;', re.S | re.M)
def dot(text, full):
    out = []; ns = []
    for m in NODE.finditer(text):
        p = m.group(2).split("\n"); x = dict(what="task", id=m.group(1), name=p[0])
        if full:
            f = dict(y.split(":", 1) for y in p[1:])
            if f.get("id") != m.group(1): x["id"] = "?"
            x.update(nph=num(f["Phases"]), dur=vec(f["duration"]), reent=num(f["reentrancy"])); ns.append(f["Ni"])
        out.append(x)
    for m in EDGE.finditer(text):
        ci, cp = both(m.group(4)); pi, pp = both(m.group(5)); p = m.group(3).split("\n")
        x = dict(what="chan", src=m.group(1), dst=m.group(2), pi=pi, pp=pp, ci=ci, cp=cp)
        if full:
            f = dict(y.split(":", 1) for y in p[1:]); x.update(kind=p[0], id=num(f["id"]), m0=num(f["preload"]))
        else: x["m0"] = num(p[0])
        out.append(x)
    if len(re.findall(r"->", text)) != sum(x["what"] == "chan" for x in out) or "digraph" not in text: out.append(dict(what="task", id="?unread"))
    return out, ns
ROW = re.compile(r"^\s*(\S+)\s+\(\s*(\d+)\)\s+(.*)$")
def infos(text):
    def val(k):
        m = re.search(r"^%s\s*=\s*(.*?)\s*$" % re.escape(k), text, re.M); return m.group(1) if m else None
    o = dict(app=val("App name") or "", name=val("Graph name") or "", type=val("Graph type") or "", ntasks=int(val("Task count") or -1), nchans=int(val("Channel count") or -1))
    cons = "not consistent" not in text
    o.update(consistent=int(cons), sumq=int(val("Sum(qt)") or -1), sumph=int(val("Sum(phit)") or -1), sumn=int(val("Sum(Nt=qt*phit) (complexity)") or -1), n=[], nph=[])
    out = []; sec = None; ns = []
    for l in text.splitlines():
        if l.strip() in ("TASKS", "CHANNELS", "NO TASKS", "NO CHANNELS"): sec = l.strip(); continue
        m = ROW.match(l)
        if not m or sec not in ("TASKS", "CHANNELS"): continue
        f = m.group(3).split()
        if sec == "TASKS" and len(f) == 6:
            out.append(dict(what="task", name=m.group(1), id=m.group(2), ind=int(f[0]), outd=int(f[1]), total=int(Decimal(f[2])), nph=f[4], map=f[5])); ns.append(f[3]); o["nph"].append(int(f[4]))
        elif sec == "CHANNELS" and len(f) == 6:
            out.append(dict(what="chan", name=m.group(1), id=m.group(2), src=f[0], dst=f[1], tin=int(f[2]), tout=int(f[3]), m0=f[4], route=f[5]))
        else: out.append(dict(what="task", id="?" + l[:40]))
    if cons and all(x.isdigit() for x in ns): o["n"] = [int(x) for x in ns]
    elif cons: out.append(dict(what="task", id="?no repetition factor"))
    o["lines"] = out; return o, ns
EMPTY = dict(app="", name="", type="", tasks=[], chans=[])
def rec(x, r):
    order = x; o = r["out"]
    if r["status"] != "ok" or "after" not in o: return [dict(kind="script", answered=0, graph=EMPTY, lines=[], frame=1)]
    g = graph(o); same = int(graph(o, "after") == g); R = []
    base = dict(answered=1, graph=g, frame=same)
    def safe(f, *a):
        try: return f(*a)
        except Exception as e: return None
    for k in order:
        if k == "s": R.append(dict(base, kind="script", lines=safe(script, o["script"]) or [dict(op="?unreadable", cur="", v=[])]))
        if k in "dgf":
            y = safe(dot, o[dict(d="dot", g="simple", f="full")[k]], k == "f"); R.append(dict(base, kind="dot", lines=y[0] if y else [dict(what="task", id="?unreadable")]))
        if k == "i":
            y = safe(infos, o["infos"])
            R.append(dict(base, kind="infos", **y[0]) if y else dict(base, kind="dot", lines=[dict(what="task", id="?unreadable")]))
    return R
def factors(x, r):
    """the repetition factors shown, for the balance machine"""
    js, order = x; o = r["out"]; R = []
    if r["status"] != "ok": return None
    for k in order:
        try: ns = dot(o["full"], True)[1] if k == "f" else infos(o["infos"])[1] if k == "i" else None
        except Exception: continue
        if ns is None: continue
        if all(v == "N/A" for v in ns): R.append(dict(kind="rep", ok=0, flag=0, n=[0] * len(ns), graph=js))
        elif all(v.isdigit() for v in ns): R.append(dict(kind="rep", ok=1, flag=1, n=[int(v) for v in ns], graph=js))
        else: R.append(dict(kind="rep", ok=1, flag=0, n=[0] * len(ns), graph=js))
    return R
def compiled(c, exe, cases, parts):
    """the generated programs are compiled and executed by the real library"""
    out = drv.run(exe, [(i, t) for i, t, _ in cases])
    cases = [x for x in cases if out.get(x[0], {}).get("status") == "ok" and "script" in out[x[0]]["out"]]
    def build(name, part):
        bad = set()
        for _ in range(3):
            L = ['#include "kh.h"', '#include <models/Dataflow.h>', "#include <iostream>", "using namespace kh;"]
            for i, _, _ in part:
                if i in bad: continue
                L += [f"#define generateGraph {i}", f'#line 1 "{i}"', out[i]["out"]["script"], "#undef generateGraph"]
            L += ["static std::map<std::string, models::Dataflow*(*)()> table = {"] + [f'{{"{i}", {i}}},' for i, _, _ in part if i not in bad] + ["};"]
            L += ["int main() { return run([](const Case& c, Out& o) { models::Dataflow* d = nullptr; auto f = table[c.id]; capture([&] { d = f(); });",
                  'o.str("app", d->getAppName()); o.str("name", d->getGraphName()); o.str("type", d->getGraphType()); o.raw("before", dump(d)); std::string t = "["; bool first = true;',
                  '{ForEachEdge(d, e) { t += (first ? "" : ",") + q(d->getEdgeTypeStr(e)); first = false; }} o.raw("etypes", t + "]"); }); }']
            e, msg = kbuild.compile_text(name, "\n".join(L) + "\n")
            if e: break
            new = {x for x in re.findall(r"^(p\d+):\d+:", msg, re.M)} - bad
            if not new: raise kbuild.BuildError(msg[-2000:])
            bad |= new
        got = {}
        try:
            if e: got = drv.run(e, [(i, f"CASE {i}\nEND\n") for i, _, _ in part if i not in bad])
        finally: shutil.rmtree(os.path.join(kbuild.BUILD, kbuild.tag(), f"gen-{name}-{os.getpid()}"), ignore_errors=True)
        return {i: got.get(i) or dict(status="does not compile", out={}) for i, _, _ in part}
    from concurrent.futures import ThreadPoolExecutor
    n = (len(cases) + parts - 1) // parts or 1
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(lambda k: build(f"p{k}", cases[k * n:(k + 1) * n]), range(parts)))
    got = {i: r for d in res for i, r in d.items()}
    def record(i, r, again):
        o = out[i]["out"]
        base = dict(kind="script", graph=graph(o), frame=1)
        if again["status"] != "ok": return dict(base, answered=0, lines=[])
        h = graph(again["out"]); lines = [dict(op="new", cur="", v=[])]
        for f, k in (("setAppName", "app"), ("setGraphName", "name"), ("setGraphType", "type")): lines.append(dict(op=f, cur="", v=[h[k]]))
        for t in h["tasks"]:
            lines += [dict(op="addVertex", cur="vertex", v=[t["id"]])] + [dict(op=f, cur="vertex", v=v) for f, v in (("setVertexName", [t["name"]]), ("setInitPhasesQuantity", [t["ninit"]]), ("setPhasesQuantity", [t["nph"]]),
                ("setReentrancyFactor", [t["reent"]]), ("setVertexInitDuration", t["init"]), ("setVertexDuration", t["dur"]))]
        for x in h["chans"]:
            lines += [dict(op="addEdge", cur="edge", v=[x["src"], x["dst"]])] + [dict(op=f, cur="edge", v=v) for f, v in (("setEdgeName", [x["name"]]), ("setEdgeInPhases", x["pp"]), ("setEdgeOutPhases", x["cp"]),
                ("setEdgeInInitPhases", x["pi"]), ("setEdgeOutInitPhases", x["ci"]), ("setPreload", [x["m0"]]), ("setTokenSize", [x["ts"]]), ("setEdgeType", [x["kind"]]))]
        return dict(base, answered=1, lines=lines + [dict(op="return", cur="", v=[])])
    text = {i: t for i, t, _ in cases}
    def again(i):
        r = build("p99", [x for x in cases if x[0] == i])[i]
        return [record(i, None, r)], r
    vf.decide(c, "Listing", [(i, [record(i, None, got[i])]) for i in got], again, "report", lambda i: text[i])
def dress(rng, g, big):
    for t in g.tasks:
        t["reent"] = rng.choice([0, 1, 1, 2])
        if big:
            f = rng.choice([lambda: rng.randint(0, 9), lambda: rng.randint(0, 10 ** 12), lambda: Decimal(rng.randint(0, 10 ** 9)) / 1024])
            t["dur"] = [f() for _ in t["dur"]]; t["init"] = [f() for _ in t["init"]]
        else: t["dur"] = [x * rng.choice([1, 1, 1000]) for x in t["dur"]]
    for x in g.chans:
        x["ts"] = rng.choice([0, 1, 1, 2, 10 ** 6])
        if big and rng.random() < .3: x["m0"] += 10 ** rng.randint(3, 15)
def args(rng, g):
    a = {}
    if rng.random() < .5: a["app"] = rng.choice(["app", "A", "x_1"]); a["type"] = rng.choice(["csdf", "T"])
    for x in g.chans:
        if rng.random() < .15: a[f"B_{x['id']}"] = 1
    return a
def check(c):
    exe = c.driver("report"); rng = c.rng
    def case(i, order, big, **k):
        g = gen.random_graph(rng, n=rng.randint(1, 5) if rng.random() < .92 else rng.randint(6, 13), init=.3, selfloop=.3, maxph=4 if rng.random() < .9 else 12, **k)
        if rng.random() < .1 and len(g.tasks) > 1 and g.chans and not big:      # unbalanced
            x = rng.choice(g.chans); x["pp"] = [v + 1 for v in x["pp"]]
        dress(rng, g, big); file = int(rng.random() < .1)
        return i, drv.case_text(i, g, dict(order=order, verbose=rng.choice([0, 1]), file=file, **args(rng, g))), (g, order)
    main = [case(f"g{k}", "".join(rng.sample("sdfgi", 5)), False) for k in range(c.n(500, 6000))]
    big = [case(f"b{k}", "s", True) for k in range(c.n(150, 2000))]
    one = lambda cs: [(i, t, o) for i, t, (g, o) in cs]
    vf.pipeline(c, "Listing", exe, one(main + big), rec, "report")
    vf.pipeline(c, "Repetition", exe, [(i, t, (g.js(), o)) for i, t, (g, o) in main[:c.n(250, 2500)] if g.chans or all(len(x["dur"]) == 1 for x in g.tasks)], factors, "report", consts=dict(AnyOrder="FALSE"))
    compiled(c, exe, [case(f"p{k}", "s", k % 3 == 0) for k in range(c.n(48, 400))], c.n(6, 16))
