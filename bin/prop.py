#!/usr/bin/env python3
"""Development tool: prop.py ID statement=... title=... note=... technique=... (edits properties.jsonl / checks/notes.json, regenerates MANIFEST.json)"""
import sys, json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i = sys.argv[1]; kv = dict(a.split("=", 1) for a in sys.argv[2:])
p = os.path.join(V, "properties.jsonl"); L = [json.loads(l) for l in open(p)]
for j in L:
    if j["id"] == i: j.update({k: v for k, v in kv.items() if k in ("statement", "title")})
open(p, "w").write("".join(json.dumps(j) + "\n" for j in L))
n = os.path.join(V, "checks/notes.json"); N = json.load(open(n))
if "note" in kv or "technique" in kv: N.setdefault(i, {}).update({k: v for k, v in kv.items() if k in ("note", "technique")})
json.dump(N, open(n, "w"), indent=1)
subprocess.run([sys.executable, os.path.join(V, "bin/mkmanifest.py")], check=True)
