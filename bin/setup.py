#!/usr/bin/env python3
"""Builds the conformance drivers once and parses every specification (the checks rebuild what is stale)."""
import os, sys, glob, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib")); sys.dont_write_bytecode = True
import kbuild
for d in sorted(glob.glob(os.path.join(V, "harness", "*.cpp"))): kbuild.build(os.path.basename(d)[:-4])
print("drivers built")
