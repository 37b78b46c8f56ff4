#!/usr/bin/env python3
"""Development tool: plants many small random changes and reports those that neither a check nor the stable tests notice.
usage: mutate.py SEED COUNT OUT [FILE-SUBSTRING...]   runs on /repo and /verif as seen in its mount namespace (see plantns)"""
import sys, os, re, random, subprocess, json, time, collections
V = "/verif"; R = "/repo"; S = "src/libkiter/"
MAP = {"algorithms/analysis/cycle_detection.cpp": "C17", "algorithms/buffersizing/backpressure.cpp": "C11", "algorithms/buffersizing/periodic.cpp": "C11", "algorithms/buffersizing/periodic_fixed.cpp": "C11",
 "algorithms/dse/abstract_dep_graph.cpp": "C05 C09", "algorithms/dse/buffer_sizing.cpp": "C10 C09", "algorithms/dse/dse.cpp": "C09", "algorithms/dse/kperiodic.cpp": "C09", "algorithms/experiments/ExpansionGraph.cpp": "C25",
 "algorithms/mapping/modelCommunications.cpp": "C18 C30", "algorithms/mapping/moduloMapping.cpp": "C18", "algorithms/mapping/randomMapping.cpp": "C18", "algorithms/mapping/randomRouting.cpp": "C18", "algorithms/mapping/xyRouting.cpp": "C18",
 "algorithms/mapping/BufferlessNoCMapAndRoute.cpp": "C18", "algorithms/mapping/bufferless_utils/GraphMapper.h": "C18", "algorithms/mapping/generateTDMA.cpp": "C19 C18", "algorithms/normalization.cpp": "C14", "algorithms/scc.cpp": "C17 C04", "algorithms/scheduling/BufferlessNoCScheduling.cpp": "C30",
 "algorithms/scheduling/CSDF_KPeriodicScheduling.cpp": "C06 C03 C07", "algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp": "C03 C06", "algorithms/scheduling/CSDF_SPeriodicScheduling.cpp": "C06 C07", "algorithms/scheduling/TDMAScheduler.cpp": "C19",
 "algorithms/symbolic_execution.cpp": "C20", "algorithms/throughput/actor.cpp": "C05 C04 C08", "algorithms/throughput/csdf_strictly_periodic.cpp": "C07 C06", "algorithms/throughput/degroote.cpp": "C03", "algorithms/throughput/kperiodic.cpp": "C22 C07 C02 C06 C03 C09",
 "algorithms/throughput/state.cpp": "C05 C04", "algorithms/throughput/symbolic_execution.cpp": "C05 C08 C04 C09", "algorithms/transformation/bug_explorer.cpp": "C16", "algorithms/transformation/merging.cpp": "C15 C30", "algorithms/transformation/remove_reentrancy.cpp": "C16",
 "algorithms/transformation/singleOutput.cpp": "C16", "commons/GroupList.h": "C30", "commons/commons.cpp": "C24 C12", "commons/commons.h": "C24", "commons/howard_cycle_ratio.hpp": "C23 C02", "generators/RandomGenerator.cpp": "C21", "generators/LTEGeneator.cpp": "C21",
 "models/Dataflow.h": "C13 C01 C17 C26 C12 C28", "models/EventGraph.cpp": "C23 C22 C06", "models/EventGraph.h": "C23 C22", "models/NoC.cpp": "C18", "models/NoCGraph.cpp": "C18", "models/NoC.h": "C18", "models/Scheduling.cpp": "C26 C29", "models/Scheduling.h": "C06 C29", "models/repetition_vector.cpp": "C01 C14", "printers/SDF3Wrapper.cpp": "C12",
 "printers/stdout.cpp": "C29 C28", "models/Dataflow.cpp": "C13", "algorithms/dse/buffer_sizing.h": "C10", "algorithms/mapping/createNoC.cpp": "C18", "lp/glpsol.cpp": "C11 C03", "lp/glpsol.h": "C11 C03"}
def code(s):
    """positions that belong to code: comments and texts are blanked"""
    o = list(s)
    for m in re.finditer(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"', s, re.S):
        for k in range(m.start(), m.end()):
            if o[k] != "\n": o[k] = " "
    return "".join(o)
RULES = [(r" < (?=[\w(])", " <= "), (r"<=", "<"), (r" > (?=[\w(])", " >= "), (r">=", ">"), (r"&&", "||"), (r"\|\|", "&&"), (r"\+ 1\b", "+ 2"), (r"\+ 1\b", ""), (r"- 1\b", ""), (r"(?<=[\w\])]) \+ (?=[\w(])", " - "), (r"(?<=[\w\])]) - (?=[\w(])", " + "),
 (r"(?<=[\w\])]) \* (?=[\w(])", " + "), (r"std::max\b", "std::min"), (r"std::min\b", "std::max"), (r"\bceil\b", "floor"), (r"\bfloor\b", "ceil"), (r"std::lcm\b", "std::max"), (r"std::gcd\b", "std::min"), (r"= 0;", "= 1;"), (r"= 1;", "= 0;"), (r"= 1;", "= 2;"), (r"\(0\)|\[0\]", None), (r"==", "!="), (r"!=", "=="), (r"\bEdgeIn\b|getEdgeIn\b", None),
 (r"getEdgeSource\b", "getEdgeTarget"), (r"getEdgeTarget\b", "getEdgeSource"), (r"getEdgeInPhase\b", "getEdgeOutPhase"), (r"getEdgeOutPhase\b", "getEdgeInPhase"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r"\+=", "="), (r"-=", "+="), (r"not ", ""), (r"if \(!", "if (")]
DEL = re.compile(r"^[ \t]+[A-Za-z_][\w.>:\-\[\]() ]*(?:\([^;{}\n]*\)|\+\+|[+\-]?= [^;{}\n]*);[ \t\r]*$", re.M)
def sites(f, s):
    c = code(s); out = []
    for r, t in RULES:
        if t is None: continue
        for m in re.finditer(r, c): out.append((m.start(), m.end(), t))
    for m in DEL.finditer(c):
        l = m.group(0).strip()
        if re.match(r"(?:const |auto |static |return|TIME_UNIT|TOKEN_UNIT|EXEC_COUNT|int |long |double |std::\w+(?:<.*>)? \w+|Vertex |Edge |models::|ARRAY_INDEX)", l): continue
        out.append((m.start(), m.end(), ""))
    keep = []
    for a, b, t in out:
        line = s[s.rfind("\n", 0, a) + 1: (s.find("\n", b) + 1) or len(s)]
        if re.search(r"VERBOSE|#include|#define|#if|cout|template|typedef|operator|_ASSERT|print|ostringstream", line): continue
        if a < s.find("{") or "<<" in line and '"' in line: continue
        keep.append((a, b, t))
    return keep
def orig(f):
    """numbers of the lines that are the original ones"""
    p = "/verif/.build/orig.json"
    return json.load(open(p)).get(f) if os.path.exists(p) else None
def sh(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    seed, count, outf = sys.argv[1], int(sys.argv[2]), sys.argv[3]; pats = sys.argv[4:]; rng = random.Random(seed)
    pool = {}
    for f in MAP:
        if pats and not any(p in f for p in pats): continue
        s = open(os.path.join(R, S + f), newline="").read(); st = sites(f, s); o = orig(S + f)
        if o is not None: st = [x for x in st if s.count("\n", 0, x[0]) + 1 in o]
        if st: pool[f] = (s, st)
    fs = list(pool); w = [min(60, len(pool[f][1])) ** .7 for f in fs]; log = open(outf, "a"); done = set()
    for k in range(count):
        f = rng.choices(fs, w)[0]; s, st = pool[f]; a, b, t = rng.choice(st)
        if (f, a, t) in done: continue
        done.add((f, a, t)); ln = s.count("\n", 0, a) + 1; ls = s.rfind("\n", 0, a) + 1; le = s.find("\n", b)
        new = s[:a] + t + s[b:]; desc = f"{f}:{ln}: {s[ls:le].strip()[:150]}   =>   {(s[ls:a] + t + s[b:le]).strip()[:150]}"
        p = os.path.join(R, S + f); open(p, "w", newline="").write(new); res = "SURVIVED"; t0 = time.time()
        try:
            for cid in MAP[f].split():
                r = sh("timeout", "600", os.path.join(V, "bin", "check"), cid, cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
                if r.returncode == 2 and "BUILD FAILED" in r.stdout: res = "nobuild"; break
                if r.returncode == 1: res = "killed " + cid; break
                if r.returncode != 0: res = f"NOANSWER {cid} {r.returncode}"; break
            if res == "SURVIVED":
                if sh("bash", "/opt/vp/build.sh").returncode: res = "nobuild"
                else:
                    sh("timeout", "600", "bash", "/opt/vp/test.sh", "/tmp/mut_o.json")
                    try: got = set(json.load(open("/tmp/mut_o.json"))["passed"])
                    except Exception: got = set()
                    if any(x not in got for x in json.load(open("/opt/vp/BASELINE.json"))["stable"]): res = "tests"
        finally: open(p, "w", newline="").write(s)
        log.write(f"{res} [{time.time() - t0:.0f}s] {desc}\n"); log.flush()
main()
