#!/usr/bin/env python3
"""Development tool: addprop.py FILE.json (one property in the schema's form) appends or replaces it in properties.jsonl"""
import sys, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); p = os.path.join(V, "properties.jsonl")
n = json.load(open(sys.argv[1])); L = [json.loads(l) for l in open(p)]
L = [j for j in L if j["id"] != n["id"]] + [n]; L.sort(key=lambda j: int(j["id"][1:]))
open(p, "w").write("".join(json.dumps(j) + "\n" for j in L))
