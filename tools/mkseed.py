#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE < JSON {"old":..,"new":.., "needs":.., "breaks":.., "demo": C++ source or {"sh": script}}
Development tool: writes seeded/<ID>/ from a textual replacement in /repo's HEAD."""
import json, os, subprocess, sys, tempfile, shutil
DEMO_SH = '''#!/bin/bash
# Exit 0: the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=gnu++17 -w -I"$PWD" -I"$PWD/_build/TameParse" "$D/demo.cpp" -L"$PWD/_build/TameParse/.libs" -lTameParse -Wl,-rpath,"$PWD/_build/TameParse/.libs" -pthread -o "$T/demo" || exit 99
cd "$T" && LC_ALL=C.UTF-8 timeout 60 ./demo
'''
def mk(id, prop, edits, needs, breaks, demo=None, sh=None, files=None):
    base = tempfile.mkdtemp(prefix="mkseed-")
    try:
        subprocess.check_call("git -C /repo archive HEAD | tar x -C %s" % base, shell=True)
        subprocess.check_call("git init -q . && git add -A -f . && git -c user.email=a@b -c user.name=n commit -qm x", shell=True, cwd=base)
        for f, old, new in edits:
            p = os.path.join(base, f); s = open(p, encoding="latin-1").read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, "w", encoding="latin-1").write(s.replace(old, new))
        d = subprocess.check_output(["git", "diff"], cwd=base)
    finally:
        shutil.rmtree(base)
    o = os.environ.get("SEED_DIR", "/verif/seeded") + "/" + id; os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "wb").write(d)
    open(o + "/demo.sh", "w").write(sh or DEMO_SH)
    if demo: open(o + "/demo.cpp", "w").write(demo)
    for n, t in (files or {}).items(): open(o + "/" + n, "w").write(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(o + "/meta.json", "w"), indent=1)
