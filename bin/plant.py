#!/usr/bin/env python3
"""Development tool: confirms a planted bug and writes /verif/seeded/<id>/.
usage: plant.py DEF.py [ID...]   DEF.py defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, what, keys=[...] | demo=<files dict>, case=<text>, driver=...)]
The edits are applied to /repo, built, tested, checked, then undone."""
import sys, os, subprocess, json, re, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = "/repo"
DEMO = r'''#!/bin/bash
# exit 0: the answers are the right ones (expected.json); cwd is /repo after build.sh
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -r "$T"' EXIT
L=$PWD/_build/Release/lib
g++ -std=c++17 -O0 -w -include array -D__RELEASE_MODE__ -I"$PWD/src/libkiter" -I/usr/include/libxml2 -I"$D" "$D/DRIVER.cpp" -o "$T/d" -L"$L" -Wl,--no-as-needed -Wl,-rpath,"$L" -llibkiter -lkiter_algorithms -lkiter_models -lkiter_commons -lkiter_printers -lkiter_generators -lkiter_lp -lxml2 -lglpk -lboost_filesystem -lboost_system || exit 0
(cd "$T" && KH_TIMEOUT=20 "$T/d" < "$D/case.txt" > "$T/out") ; python3 "$D/cmp.py" "$T/out" "$D/expected.json"
'''
CMP = r'''import sys, json, re
def num(s): return re.findall(r"-?(?:\d+\.?\d*(?:e[-+]?\d+)?|inf|nan)", s)
def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict): return all(same(a[k], b.get(k)) for k in a)
    if isinstance(a, list) and isinstance(b, list): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, str) and isinstance(b, str):
        a, b = ["\n".join(l for l in x.splitlines() if "Time" not in l) for x in (a, b)]
        if re.sub(r"[-+\d.e]|inf|nan", "", a) != re.sub(r"[-+\d.e]|inf|nan", "", b): return False
        x, y = num(a), num(b)
        return len(x) == len(y) and all(p == r or abs(float(p) - float(r)) <= 1e-6 * max(1, abs(float(p))) for p, r in zip(x, y))
    return a == b
exp = json.load(open(sys.argv[2])); got = [json.loads(l) for l in open(sys.argv[1]) if l.startswith("{")]
if isinstance(exp, dict): exp = [exp]; got = got[:1]
if not same(exp, got): print("expected", json.dumps(exp)[:2000]); print("got     ", json.dumps(got)[:2000]); sys.exit(1)
'''
def sh(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def undo(): sh("git", "-C", R, "checkout", "--", ".")
def build():
    r = sh("bash", "/opt/vp/build.sh"); return r.returncode == 0, r.stdout[-1500:]
def plant(b):
    d = os.path.join(V, "seeded", b["id"]); os.makedirs(d, exist_ok=True); undo()
    for f, old, new in b["edits"]:
        p = os.path.join(R, f); s = open(p).read()
        if s.count(old) != b.get('times', 1): return f"edit of {f}: {s.count(old)} matches for {old[:60]!r}"
        open(p, "w").write(s.replace(old, new))
    try:
        open(os.path.join(d, "patch.diff"), "w").write(sh("git", "-C", R, "diff").stdout)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["what"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        ok, out = build()
        if not ok: return "does not build: " + out
        sh("bash", "/opt/vp/test.sh", "/tmp/plant_o.json")
        got = set(json.load(open("/tmp/plant_o.json"))["passed"]); base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        fail = [x for x in base if x not in got]
        if fail: return f"stable tests fail: {fail[:3]}"
        caught = {}
        for cid in b.get("checks", [b["property"]]):
            r = sh(os.path.join(V, "bin", "check"), cid, cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            caught[cid] = r.returncode
            rp = re.findall(r"replay=(\S+)", r.stdout)
            if rp and "case" not in b and "demo" not in b:
                j = json.load(open(rp[b.get("pick", 0) % len(rp)])); b["case"] = j["case"]; b["driver"] = j["driver"]
            if r.returncode not in (0, 1): print(r.stdout[-1500:])
        print(b["id"], "caught:", caught, flush=True)
        if "demo" in b:
            for f, t in b["demo"].items(): open(os.path.join(d, f), "w").write(t)
        elif "case" in b:
            open(os.path.join(d, "case.txt"), "w").write(b["case"])
            for f in ["kh.h", b["driver"] + ".cpp"]: shutil.copy(os.path.join(V, "harness", f), d)
            open(os.path.join(d, "cmp.py"), "w").write(CMP); open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("DRIVER", b["driver"]))
        elif os.path.exists(os.path.join(d, "demo.sh")): pass
        else: return f"no case (caught {caught})"
        if "demo" not in b and "case" in b: open(os.path.join(d, "expected.json"), "w").write("{}")
        patched = sh("bash", os.path.join(d, "demo.sh"), cwd=R)
        undo(); ok, out = build()
        if "demo" not in b and "case" in b:
            # the right answers: those of the unchanged tree (validated by the check)
            exe = subprocess.run([sys.executable, os.path.join(V, "lib", "kbuild.py"), b["driver"]], stdout=subprocess.PIPE, text=True, cwd=V).stdout.split()[0]
            os.makedirs("/tmp/plantrun", exist_ok=True)
            js = [json.loads(l) for l in subprocess.run([exe], input=b["case"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd="/tmp/plantrun").stdout.splitlines() if l.startswith("{")]
            if not js: return "no answers for the case"
            e = [dict(case=j["case"], status=j["status"], out={k: v for k, v in j["out"].items() if not b.get("keys") or k in b["keys"]}) for j in js]
            json.dump(e, open(os.path.join(d, "expected.json"), "w"), indent=1)
            clean = sh("bash", os.path.join(d, "demo.sh"), cwd=R)
            for f, old, new in b["edits"]:
                p = os.path.join(R, f); s = open(p).read(); open(p, "w").write(s.replace(old, new))
            build(); patched = sh("bash", os.path.join(d, "demo.sh"), cwd=R); undo()
        else: clean = sh("bash", os.path.join(d, "demo.sh"), cwd=R)
        if clean.returncode: return "demo fails on the clean tree: " + clean.stdout[-600:]
        if patched.returncode == 0: return "demo passes with the patch"
        return f"OK caught={caught}"
    finally: undo()
if __name__ == "__main__":
    ns = {}; exec(open(sys.argv[1]).read(), ns)
    for b in ns["BUGS"]:
        if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]: continue
        r = plant(b); print(b["id"], b["property"], r, flush=True)
        if not r.startswith("OK"): 
            d = os.path.join(V, "seeded", b["id"])
            if not r.startswith("no case") and os.path.isdir(d): shutil.rmtree(d)
    build()
