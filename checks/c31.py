"""C31: the picture of an application placed on a network shows that network, those places and those routes."""
import re
import drv, vf, gen
from c18 import dense
NODE = re.compile(r'^(\d+)\s*\[label="([^"]*)".*?pos="([^,"]*),([^!"]*)!"'); LINK = re.compile(r'^(\d+)\s*->\s*(\d+)\s*\[(.*)\]'); COL = re.compile(r'\bcolor\s*=\s*"([^"]*)"')
TASK = re.compile(r'^task_(\d+)\s*\[.*?label="([^"]*)".*?pos="([^,"]*),([^!"]*)!"'); ARROW = re.compile(r'^task_(\d+)\s*->\s*task_(\d+)\s*\[')
def mil(x):
    try: v = float(x); return int(round(v * 1000)) if abs(v) < 10 ** 5 else -10 ** 6
    except ValueError: return -10 ** 6
def picture(text):
    p = dict(nodes=[], links=[], tasks=[], arrows=[])
    for l in text.splitlines():
        l = l.strip()
        m = LINK.match(l)
        if m: col = COL.search(m[3]); p["links"].append(dict(s=int(m[1]), t=int(m[2]), col=[x for x in col[1].split(":") if x] if col else [])); continue
        m = ARROW.match(l)
        if m: p["arrows"].append(dict(s=int(m[1]), t=int(m[2]))); continue
        m = NODE.match(l)
        if m: p["nodes"].append(dict(id=int(m[1]), label=m[2].replace("\\l", ""), x=mil(m[3]), y=mil(m[4]))); continue
        m = TASK.match(l)
        if m: p["tasks"].append(dict(id=int(m[1]), label=m[2], x=mil(m[3]), y=mil(m[4])))
    return p
def rec(x, r):
    g, colour, arrows = x
    base = dict(ok=False, xs=0, ys=0, nodes=[], links=[], at=[], names=[], ids=[], ch=[], colour=colour, arrows=arrows, pic=picture(""))
    if r["status"] != "ok": return [base]
    o = r["out"]; ty = {a: t for a, t, u, v in o["nodes"]}; rs = []
    for s in o["steps"]:
        if s["algo"] != "PrintMapping": continue
        mp = dict(map(tuple, s["map"])); rt = {a: b for a, b in s["routes"]}; ids = [t["id"] for t in s["g"]["tasks"]]; pos = {i: k + 1 for k, i in enumerate(ids)}
        rs.append(dict(base, ok=True, xs=o["xs"], ys=o["ys"], nodes=[dict(id=a, core=ty[a] == 0, x=u, y=v) for a, u, v in o["places"]], links=[dict(id=a, s=u, t=v) for a, u, v in o["edges"]],
                       at=[mp.get(i, -1) for i in ids], names=[t["name"] for t in s["g"]["tasks"]], ids=ids,
                       ch=[dict(s=pos[c["src"]], t=pos[c["dst"]], route=rt.get(c["id"], [])) for c in s["g"]["chans"]], pic=picture(s["text"])))
    return rs
def check(c):
    exe = c.driver("noc"); cases = []
    def add(g, args, rng, lines=()):
        i = f"m{len(cases)}"; colour = rng.random() < .8; arrows = rng.random() < .6
        if colour or rng.random() < .5: args["P_color_routes"] = int(colour)
        if arrows or rng.random() < .5: args["P_connect_tasks"] = int(arrows)
        cases.append((i, drv.case_text(i, g, args, lines), (g, colour, arrows)))
    rng = c.sub("placed")
    for k in range(c.n(140, 2500)):
        # few or many tasks; some networks are crowded
        g = dense(gen.random_graph(rng, n=rng.randint(1, 6), maxph=1, zero_dur=False, **(dict(parallel=.5, extra=rng.randint(2, 12), maxq=2) if k % 3 == 0 else {})))
        if any(not any(t["id"] in (h["src"], h["dst"]) for h in g.chans) for t in g.tasks) and rng.random() < .5: continue
        x, y = (rng.randint(1, 5), rng.randint(1, 5)) if k % 4 else (rng.randint(1, 2), rng.randint(1, 2))
        a = dict(mesh=f"{x} {y}", seed=rng.randint(0, 10 ** 6))
        if k % 7 == 6: a["algos"] = "PrintMapping"; add(g, a, rng, [f"{t['id']} {x * y + rng.randrange(x * y)}" for t in g.tasks if rng.random() < .7]); continue
        if k % 7 == 5: a["algos"] = "PrintMapping moduloMapping PrintMapping"; add(g, a, rng); continue
        for t in g.tasks:
            if rng.random() < .4: a["P_" + t["name"]] = x * y + rng.randrange(x * y)
        a["algos"] = "randomMapping " + rng.choice(["", "PrintMapping "]) + rng.choice(["xyRouting", "randomRouting"]) + " PrintMapping" + rng.choice(["", " ModelNoCConflictFreeCommunication PrintMapping"])
        add(g, a, rng)
    rng = c.sub("routed")
    for k in range(c.n(40, 600)):
        n = rng.randint(2, 6)
        g = dense(gen.random_graph(rng, n=n, maxph=1, zero_dur=False, dead=0, selfloop=0, parallel=.4, extra=rng.randint(0, 2 * n), maxq=2))
        if gen.throughput(g)[0] <= 0: continue
        add(g, dict(algos="BufferlessNoCMapAndRoute PrintMapping"), rng)
    vf.pipeline(c, "Mapped", exe, cases, rec, "noc")
