import copy, os, re, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import drv, vf, gen
from c09 import connected
ANY = "KPeriodicThroughput KPeriodicThroughput~DETAILS=1 1PeriodicThroughput 2PeriodicThroughput NKPeriodicThroughput SPeriodicThroughput ASPeriodicThroughput SymbExec EG1 EGN LP1 LPN REALLP1 " \
      "PrintXML PrintKiter PrintInfos PrintGraph CycleDetection CycleCount PrintKPeriodicScheduling BufferlessKPeriodicScheduling BackPressureSizing~PERIOD=@ SPeriodicSizing~PERIOD=@ " \
      "PeriodicSizing~PERIOD=@ FixedOffsetBufferSizing~PERIOD=@~BURST FixedOffsetBufferSizing~PERIOD=@~WIGGERS 1PeriodicScheduling SPeriodicScheduling".split()
SDF = "deGrooteThroughput deGrooteCleanThroughput PartialExpansion SymbolicExecutionWP".split()
LIVE = ["ASAPScheduling"]                                       # live, strongly connected
SMALL = ["ThroughputBufferingDSE", "PeriodicDSE", "SPeriodicDSE"]
def mirror(g):
    m = copy.deepcopy(g)
    for c in m.chans: c["src"], c["dst"], c["pi"], c["ci"], c["pp"], c["cp"] = c["dst"], c["src"], c["ci"], c["pi"], c["cp"], c["pp"]
    return m
def show(g):
    return dict(tasks=[dict(id=t["id"], name=t["name"], reent=t["reent"], init=t["init"], dur=t["dur"]) for t in g.tasks],
                chans=[dict((k, c[k]) for k in ("id", "name", "src", "dst", "pi", "pp", "ci", "cp", "m0", "ts")) for c in g.chans])
def seen(d):
    """the graph as the code shows it, in the form of show()"""
    I = lambda v: [int(float(x)) if float(x) == int(float(x)) else -1 for x in v]
    return dict(tasks=[dict(id=t["id"], name=t["name"], reent=t["reent"], init=I(t["init"]), dur=I(t["dur"])) for t in d["tasks"]],
                chans=[dict((k, c[k]) for k in ("id", "name", "src", "dst", "pi", "pp", "ci", "cp", "m0", "ts")) for c in d["chans"]])
def answer(algo, text):
    """what is printed, without computation times; numbers to 9 digits"""
    if "DSE" in algo: text = "\n".join(sorted(";".join(l.split(";")[:3]) for l in text.splitlines() if l.count(";") >= 3))     # points of one size in any order
    text = "\n".join(";".join(f[:4] + f[7:]) if len(f) == 12 else l for l in text.splitlines() for f in [l.split(";")])     # DETAILS: without durations
    text = "\n".join(l for l in text.splitlines() if "time" not in l.lower())
    return re.sub(r"(?<![\w.])-?\d+\.\d+(?:e[-+]?\d+)?", lambda m: "%.9g" % float(m.group()), text)
def session(rng, g, steps):
    """-> [(line, kind, what, arg, graph index, graph before the step)]"""
    gs = [copy.deepcopy(g), mirror(g)]; cur = 0; out = []; sdf = all(len(t["dur"]) == 1 and not t["init"] for t in g.tasks)
    names = ANY * 2 + (SDF * 2 if sdf else []) + (SMALL if len(g.chans) <= 3 and not any(t["init"] for t in g.tasks) else [])
    if any(t["init"] for t in g.tasks): names = [n for n in names if n.split("~")[0] not in ("BackPressureSizing", "FixedOffsetBufferSizing")]
    favourite = rng.sample(names, 4)
    for _ in range(steps):
        x = rng.random(); h = gs[cur]; before = copy.deepcopy(h)
        if x < .16: c = rng.randrange(len(h.chans)); h.chans[c]["m0"] = max(0, h.chans[c]["m0"] + rng.choice([-1, 1, 1, 2])); out.append((f"M {h.chans[c]['id']} {h.chans[c]['m0']}", "M", c + 1, [h.chans[c]["m0"]], cur, before))
        elif x < .28:
            t = rng.randrange(len(h.tasks)); h.tasks[t]["dur"] = [rng.randint(1, 5) for _ in h.tasks[t]["dur"]]
            out.append((f"D {h.tasks[t]['id']} {' '.join(map(str, h.tasks[t]['dur']))}", "D", t + 1, h.tasks[t]["dur"], cur, before))
        elif x < .40: out.append(("X", "X", 0, [], cur, before)); cur = 1 - cur
        else:
            a = rng.choice(favourite if rng.random() < .5 else names)
            if rng.random() < .12 and not any(t["init"] for t in h.tasks) and strongly(h) and (gen.throughput(h, limit=4000) or (0,))[0] > 0: a = "ASAPScheduling"
            if a in SMALL and not ((gen.throughput(h, limit=4000) or (0,))[0] > 0): a = "SymbExec"
            n = a.replace("@", str(rng.choice([40, 100]))).replace("~", " ")
            out.append(("A " + n, "A", 0, [], cur, before))
    if rng.random() < .6:       # one transformation may end the session
        h = gs[cur]; ids = ",".join(str(t["id"]) for t in rng.sample(h.tasks, rng.randint(1, len(h.tasks))))
        live = not any(t["init"] for t in h.tasks) and (gen.throughput(h, limit=4000) or (0,))[0] > 0
        a = rng.choice(["remove taskid=" + ids, "RemoveReentrancy taskid=" + ids, "RemoveReentrancy", "SingleOutput name=" + h.tasks[0]["name"]] + [f"Merge tasks={ids} name=merged"] * 3 * live + ["AddVBuffers PERIOD=100 BURST"] * live)
        out.append(("A " + a, "T", 0, [], cur, copy.deepcopy(h)))
    return out
def strongly(g): return len(gen.components(g)) == 1
def command(algos):
    """the arguments of the command line for a list of algorithms"""
    r = []
    for a in algos:
        n, *ps = a.split()
        for p in ps: r += ["-p", p if "=" in p else p + "=1"]
        r += ["-a", n]
    return r
def chains(c, exe):
    """the same for the command line program: what it prints for a list of algorithms is what it prints for each of them"""
    cli = c.driver("cli"); rng = c.rng
    with tempfile.TemporaryDirectory() as tmp:
        def call(k, algos, name):
            d = os.path.join(tmp, name); os.makedirs(d, exist_ok=True)
            try: p = subprocess.run([cli, "-f", os.path.join(tmp, f"{k}.xml")] + command(algos), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", timeout=10, cwd=d)
            except subprocess.TimeoutExpired: return None
            return p.stdout if p.returncode == 0 else None
        gs = []
        while len(gs) < c.n(70, 700):
            g = gen.random_graph(rng, n=rng.randint(1, 4), maxph=rng.choice([1, 3]), zero_dur=False, dead=.1, maxdur=rng.choice([5, 5, 90000]))
            if g.chans and connected(g): gs.append(g)
        cases = [(f"x{k}", drv.case_text(f"x{k}", g, {}, ["A PrintXML"])) for k, g in enumerate(gs)]; xml = drv.run(exe, cases, env=dict(KH_TMP=tmp)); texts = dict(cases)
        for k in range(len(gs)): open(os.path.join(tmp, f"{k}.xml"), "w").write(xml[f"x{k}"]["out"]["steps"][0]["text"])
        todo = []
        for k, g in enumerate(gs):
            sdf = all(len(t["dur"]) == 1 for t in g.tasks); names = ANY + (SDF if sdf else []) + (["ThroughputBufferingDSE"] if len(g.chans) < 3 and (gen.throughput(g, limit=4000) or (0,))[0] > 0 else [])
            todo.append((k, [a.replace("@", "100").replace("~", " ") for a in rng.sample(names, 4)] + ["PrintXML"]))
        def one(x):
            k, algos = x; alone = [call(k, [a], f"{k}.{j}") for j, a in enumerate(algos)]
            algos = [a for a, x in zip(algos, alone) if x is not None]; alone = [x for x in alone if x is not None]
            t = call(k, algos, f"{k}.all"); ok = t is not None; lines = (t or "").splitlines(); st = []
            for a, f in zip(algos, alone):
                n = f.count("\n")
                st.append(dict(kind="A", what=0, arg=[], ok=ok, text=answer(a, "\n".join(lines[:n])) if ok else "", fresh=answer(a, f), graph=dict(tasks=[], chans=[]), freshgraph=dict(tasks=[], chans=[]))); lines = lines[n:]
            return algos, dict(graphs=[dict(tasks=[], chans=[])] * 2, steps=st)
        with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, todo))
        items = [(i, [r]) for i, (_, r) in enumerate(res)]
        def again(i):
            a, r = one(todo[i]); return [r], dict(command=command(a), differences=[(x, s["text"][:300], s["fresh"][:300]) for x, s in zip(a, r["steps"]) if s["text"] != s["fresh"]][:2])
        vf.decide(c, "Session", items, again, "cli", lambda i: "".join(f"# kiter -f x.xml {' '.join(command(todo[i][1]))}\n") + open(os.path.join(tmp, f"{i}.xml")).read())
def check(c):
    exe = c.driver("session"); rng = c.rng; todo = []; chains(c, exe)
    with tempfile.TemporaryDirectory() as tmp:
        env = dict(KH_TMP=tmp)
        for k in range(c.n(400, 4000)):
            n = rng.randint(1, 4)
            for _ in range(50):
                g = gen.random_graph(rng, n=n, maxph=rng.choice([1, 3]), zero_dur=False, dead=.1, strongly=rng.random() < .7, init=.25 if k % 6 == 0 else 0, extra=rng.choice([None, 0]))
                if g.chans and connected(g): break
            else: continue
            todo.append((f"s{k}", g, session(rng, g, 14), rng.choice([0, 300, 2000])))
        # every analysis alone, on a new copy of the graph it is applied to
        def alone(i, j, s): return (f"{i}.{j}", drv.case_text(f"{i}.{j}", s[5], {}, [s[0]]))
        first = drv.run(exe, [alone(i, j, s) for i, g, ss, u in todo for j, s in enumerate(ss) if s[1] in "AT"], env=env, timeout=5, maxtimeouts=200)
        cases = []
        for i, g, ss, u in todo:
            keep = [s for j, s in enumerate(ss) if s[1] not in "AT" or (first.get(f"{i}.{j}") or {}).get("status") == "ok"]
            cases.append((i, g, keep, drv.case_text(i, g, dict(junk=u), [s[0] for s in keep]), [first[f"{i}.{j}"] for j, s in enumerate(ss) if s in keep and s[1] in "AT"]))
        c.notes["analyses_alone"] = len(first); c.notes["of_which_refused_or_unfinished"] = sum(r["status"] != "ok" for r in first.values())
        rs = drv.run(exe, [(i, t) for i, _, _, t, _ in cases], env=env, timeout=40)
        def record(g, ss, r, fresh):
            ok = r and r["status"] == "ok"; st = []; f = iter(fresh)
            for k, s in enumerate(ss):
                d = dict(kind=s[1], what=s[2], arg=s[3], ok=bool(ok), text="", fresh="", graph=dict(tasks=[], chans=[]), freshgraph=dict(tasks=[], chans=[]))
                if ok:
                    o = r["out"]["steps"][k]; d["graph"] = seen(o["graph"])
                    if s[1] in "AT": a = next(f)["out"]["steps"][0]; d.update(text=answer(s[0], o["text"]), fresh=answer(s[0], a["text"]), freshgraph=seen(a["graph"]))
                st.append(d)
            return dict(graphs=[show(g), show(mirror(g))], steps=st)
        by = {i: (g, ss, t, f) for i, g, ss, t, f in cases}
        items = [(i, [record(g, ss, rs.get(i), f)]) for i, g, ss, t, f in cases if (rs.get(i) or {}).get("status") != "skipped"]
        def again(i):
            g, ss, t, _ = by[i]
            f = [drv.run(exe, [("f", drv.case_text("f", s[5], {}, [s[0]]))], jobs=1, env=env, timeout=15).get("f") for s in ss if s[1] in "AT"]
            r = drv.run(exe, [(i, t)], jobs=1, env=env, timeout=120).get(i)
            if any(not x or x["status"] != "ok" for x in f): return [], None
            R = record(g, ss, r, f)
            return [R], dict(status=(r or {}).get("status"), differences=[(s[0], d["text"][:300], d["fresh"][:300]) for s, d in zip(ss, R["steps"]) if d["text"] != d["fresh"]][:2])
        vf.decide(c, "Session", items, again, "session", lambda i: by[i][2])
