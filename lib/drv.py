"""Runs a conformance driver on a list of cases, in parallel."""
import subprocess, json, os, threading
from concurrent.futures import ThreadPoolExecutor

def case_text(cid, graph=None, args=None, lines=()):
    o = f"CASE {cid}\n"
    if graph is not None: o += graph.text()
    for k, v in (args or {}).items(): o += f"ARG {k} {v}\n"
    for l in lines: o += f"L {l}\n"
    return o + "END\n"

def run(exe, cases, jobs=8, timeout=10, env=None, maxtimeouts=12):
    """cases: list of (id, text) -> dict id -> record.  After maxtimeouts cases that do not end the rest
    is not executed (status "skipped": no verdict); those that did not end are answers enough."""
    chunks = [cases[i::jobs] for i in range(jobs)]
    e = dict(os.environ); e["KH_TIMEOUT"] = str(timeout); e.update(env or {})
    out = {}; procs = []; late = [0]; lock = threading.Lock()
    def one(ch):
        if not ch or late[0] >= maxtimeouts: return
        p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=e, start_new_session=True)
        with lock: procs.append(p)
        def feed():
            try: p.stdin.write("".join(t for _, t in ch)); p.stdin.close()
            except (BrokenPipeError, ValueError): pass
        f = threading.Thread(target=feed, daemon=True); f.start()
        for l in p.stdout:
            if not l.startswith("{"): continue
            try: r = json.loads(l)
            except ValueError: continue
            with lock:
                out[r["case"]] = r
                if r["status"] == "timeout": late[0] += 1
                stop = late[0] >= maxtimeouts
            if stop:
                with lock:
                    for q in procs:
                        try: os.killpg(q.pid, 9)
                        except OSError: pass
                break
        p.wait()
    with ThreadPoolExecutor(jobs) as ex: list(ex.map(one, chunks))
    if late[0] >= maxtimeouts:
        for i, _ in cases: out.setdefault(i, dict(case=i, status="skipped", out={}))
    return out
