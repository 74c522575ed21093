#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the catalogue"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from catalog import P
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for id in sorted(P):
        p = P[id]
        for x in p["files"]:
            assert os.path.exists(os.path.join("/repo", x)), (id, x)
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["observe"]:
            a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": id, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "TAMEPARSE_VERIFY", "enable": "not used: no hooks were needed, the checks compile /repo's sources as they are", "source_commits": []},
     "checks": [{"property": id, "quick_cmd": "python3 tools/run.py %s quick" % id, "thorough_cmd": "python3 tools/run.py %s thorough" % id,
                 "technique": P[id]["technique"], "level": P[id]["level"], "level_note": P[id]["note"] or "Complete within the stated bounds."} for id in sorted(P)],
     "not_applicable": []}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

# ---- DESIGN.md
def read(n):
    return open(os.path.join(V, "docs", n)).read()


k = json.load(open(os.path.join(V, "known_findings.json")))
o = [read("head.md"), "## Properties\n"]
for id in sorted(P):
    p = P[id]
    runs = ", ".join("`%s%s`%s" % (r["harness"], " " + " ".join(r["args"]) if r.get("args") else "", " (ASan)" if r.get("variant") == "asan" else "") for r in p["runs"])
    b = p["bounds"]
    bounds = b if isinstance(b, str) else "quick: %s; thorough: %s" % (b["quick"].rstrip("."), b["thorough"].rstrip("."))
    o.append("### %s — %s\n\n%s\n\n* Anchored in: %s.\n* Explorers: %s.\n* Bounds: %s.\n* How a case is judged: %s.\n* Why tests can't settle it: %s\n%s* Strength: %s\n" % (
        id, p["title"], p["statement"], "; ".join("%s (%s)" % m for m in p["mech"]), runs, bounds, p["rule"].rstrip("."), p["why"],
        "* Assumes: %s\n" % " ".join(p["assumptions"]) if p["assumptions"] else "", p["note"] or "Complete within the stated bounds."))
o.append("No property is listed as not applicable: all those written down are decided by exhaustive exploration.\n")
o.append("## Genuine defects found\n\nRecorded, not repaired:\n")
o += ["* **%s** (%s): %s." % (x["id"], x["property"], x["what"]) for x in k["known"]]
o.append("\nRepaired by `fix:` commits in /repo (a fixed entry suppresses nothing):\n")
o += ["* %s %s: %s" % (x.split()[1].split("=")[1], x.split()[2], " ".join(x.split()[3:])) for x in k["fixed"]]
o.append("\n## Planted bugs and the checks that catch them\n\nEvery change below compiles, passes the 741 stable tests and has a demonstration; \"caught by\" is what the quick checks report.\n\n| planted bug | property | caught by | what it breaks |\n|---|---|---|---|")
caught = json.load(open(os.path.join(V, "docs", "caught.json")))
for s in sorted(caught):
    c = caught[s]
    o.append("| %s | %s | %s | %s |" % (s, c["property"], c["caught"], c["breaks"]))
o.append(read("tail.md"))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o))
