#!/usr/bin/env python3
"""Warms the object cache from /repo's current tree (each check builds for itself what is missing or stale)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from catalog import P
for p in P.values():
    for r in p["runs"]:
        if "harness" in r:
            build.harness(r["harness"], r.get("full", False), r.get("variant", "opt"))
print("ok")
