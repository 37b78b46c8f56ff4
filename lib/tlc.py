"""Runs TLC on a module of /verif/spec and returns what it did."""
import os, re, subprocess, tempfile, json, shutil, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class SpecError(Exception): pass

def run(module, data=None, cfg=None, workers=8, env=None, timeout=800, cont=True, xmx="6g", consts=None):
    """data: python value handed to the module as JSON (IOEnv.VF_INPUT).
    Returns dict(states, distinct, violations=[(invariant, last-state text)])"""
    os.makedirs(os.path.join(VERIF, ".build"), exist_ok=True)
    d = tempfile.mkdtemp(prefix="tlc-", dir=os.path.join(VERIF, ".build"))
    try:
        e = dict(os.environ); e.update(env or {})
        if data is not None:
            p = os.path.join(d, "in.json"); json.dump(data, open(p, "w")); e["VF_INPUT"] = p
        cfgp = os.path.join(SPEC, cfg or module + ".cfg")
        if consts:
            t = open(cfgp).read()
            for k, v in consts.items(): t = re.sub(r"(?m)^(\s*%s\s*=\s*).*$" % k, lambda m: m.group(1) + v, t)
            cfgp = os.path.join(d, "run.cfg"); open(cfgp, "w").write(t)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss64m", "-cp", JARS, "-DTLA-Library=" + SPEC, "tlc2.TLC", "-workers", str(workers),
               "-metadir", os.path.join(d, "st"), "-noGenerateSpecTE", "-config", cfgp] + (["-continue"] if cont else []) + [os.path.join(SPEC, module + ".tla")]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, cwd=d, timeout=timeout)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    out = r.stdout
    viol = []
    parts = re.split(r"(?m)^Error: (?:Invariant (\w+) is violated|Action property (\w+) is violated|Temporal properties were violated|Property (\w+) is violated).*$", out)
    # re.split with 3 groups: text, g1, g2, g3, text, ...
    for i in range(1, len(parts), 4):
        name = parts[i] or parts[i+1] or parts[i+2] or "temporal"
        body = parts[i+3]
        states = re.split(r"(?m)^(?:State \d+:|\d+: ).*$", body)
        last = states[-1]
        last = re.split(r"(?m)^(?:Error:|Finished|Progress|\d+ states generated|Model checking)", last)[0]
        viol.append((name, last.strip()))
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "") if False else re.sub(r"(?<=\d),(?=\d\d\d)", "", out))
    if not m: raise SpecError(out[-4000:])
    if "is violated" not in out and "Model checking completed. No error" not in out and r.returncode != 0:
        raise SpecError(out[-4000:])
    if re.search(r"(?m)^Error: (?!Invariant|Action property|Property|Temporal|The behavior up to|The following behavior)", out):
        raise SpecError("\n".join(re.findall(r"(?m)^Error: (?!Invariant|Action property|Property|Temporal|The behavior up to|The following behavior).*(?:\n.*){0,6}", out))[:4000])
    return dict(states=int(m[-1][0]), distinct=int(m[-1][1]), violations=viol, out=out)

def var(state, name):
    m = re.search(r"(?ms)^/\\ %s = (.*?)(?=^/\\ |\Z)" % name, state)
    return m.group(1).strip() if m else None

def simulate(module, num, depth, seed, cfg=None, consts=None, timeout=600, xmx="4g"):
    """Random behaviours of a module, as it prints them: one JSON value per behaviour (a line 'HIST <json>').
    Deterministic for a given seed."""
    os.makedirs(os.path.join(VERIF, ".build"), exist_ok=True)
    d = tempfile.mkdtemp(prefix="tlc-", dir=os.path.join(VERIF, ".build"))
    try:
        cfgp = os.path.join(SPEC, cfg or module + ".cfg")
        if consts:
            t = open(cfgp).read()
            for k, v in consts.items(): t = re.sub(r"(?m)^(\s*%s\s*=\s*).*$" % k, lambda m: m.group(1) + v, t)
            cfgp = os.path.join(d, "run.cfg"); open(cfgp, "w").write(t)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss64m", "-cp", JARS, "-DTLA-Library=" + SPEC, "tlc2.TLC", "-workers", "1", "-simulate", f"num={num}", "-depth", str(depth),
               "-seed", str(seed), "-metadir", os.path.join(d, "st"), "-noGenerateSpecTE", "-config", cfgp, os.path.join(SPEC, module + ".tla")]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d, timeout=timeout)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    h = [json.loads(json.loads(m)[5:]) for m in re.findall(r'(?m)^("HIST .*")$', r.stdout)]
    if not h or "Error:" in r.stdout: raise SpecError(r.stdout[-3000:])
    return h
