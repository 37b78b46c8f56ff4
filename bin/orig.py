#!/usr/bin/env python3
"""Development tool: writes .build/orig.json, the numbers of the lines of /repo's sources that are the original repository's
(not of a later commit): planted bugs count on these only."""
import subprocess, json, os
R = "/repo"; git = lambda *a: subprocess.run(["git", "-C", R, *a], stdout=subprocess.PIPE, text=True, errors="replace").stdout
root = git("rev-list", "--max-parents=0", "HEAD").split()[0]; out = {}
for f in git("ls-files", "src").split("\n"):
    if not f.endswith((".cpp", ".h", ".hpp")): continue
    out[f] = [k + 1 for k, l in enumerate(x for x in git("blame", "-s", "-l", "--root", "--abbrev=40", "--", f).split("\n") if x) if l.lstrip("^").startswith(root)]
json.dump(out, open("/verif/.build/orig.json", "w"))
