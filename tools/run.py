#!/usr/bin/env python3
"""Runs the check of one property:  run.py <property> [quick|thorough]      run.py --replay FILE

Builds the explorers the property needs from /repo's working tree, runs them as parallel shards, merges what they covered
into evidence/<property>.json and prints VIOLATION / KNOWN-FINDING lines."""
import json, os, re, resource, shutil, struct, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from specs import SPECS

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known_findings.json")


def load_known():
    if not os.path.exists(KNOWN):
        return []
    return json.load(open(KNOWN)).get("known", [])


def read_cur(path):
    try:
        d = open(path, "rb").read()
        n, idx = struct.unpack("qq", d[:16])
        sec = d[16:80].split(b"\0")[0].decode(errors="replace")
        desc = d[80:].split(b"\0")[0].decode(errors="replace")
        return n, idx, sec, desc
    except Exception:
        return -1, -1, "", ""


def limits(mem):
    def f():
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


class Job:
    def __init__(self, prop, run, exe, tier, shard, shards, tmp):
        self.prop, self.run, self.exe, self.tier, self.shard, self.shards, self.tmp = prop, run, exe, tier, shard, shards, tmp
        self.resume = -1
        self.restarts = 0
        self.results = []
        self.crashes = []
        self.base = os.path.join(tmp, "%s.%s.%d" % (run["harness"], "_".join(run.get("args", [])).replace("/", "_"), shard))

    def start(self):
        self.out = self.base + ".%d.json" % self.restarts
        self.cur = self.base + ".cur"
        self.log = self.base + ".log"
        cmd = [self.exe, "--tier", self.tier, "--shard", "%d/%d" % (self.shard, self.shards), "--out", self.out, "--cur", self.cur,
               "--resume-after", str(self.resume)] + self.run.get("args", [])
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=93:abort_on_error=0:allocator_may_return_null=0:detect_odr_violation=0"
        env["VP_SCRATCH"] = self.tmp
        env["LC_ALL"] = "C.UTF-8"
        mem = None if self.run.get("variant") == "asan" else 8 << 30
        self.lf = open(self.log, "ab")
        self.p = subprocess.Popen(cmd, stdout=self.lf, stderr=self.lf, stdin=subprocess.DEVNULL, env=env, preexec_fn=limits(mem), cwd=self.tmp)

    def finished(self):
        """Returns True if the shard is done"""
        rc = self.p.poll()
        if rc is None:
            return False
        self.lf.close()
        ok = rc in (0, 1, 92) and os.path.exists(self.out)
        if ok:
            self.results.append(json.load(open(self.out)))
            return True
        n, idx, sec, desc = read_cur(self.cur)
        tail = open(self.log, "rb").read()[-3000:].decode(errors="replace")
        why = {91: "hang (case exceeded its CPU time limit)", 93: "AddressSanitizer error"}.get(rc, "died with status %d" % rc)
        self.crashes.append(("%s#%d crash %s" % (sec, idx, desc), "%s; case: %s\n%s" % (why, desc, tail)))
        if os.path.exists(self.out):
            self.results.append(json.load(open(self.out)))
        if n < 0 or self.restarts >= 8:
            return True
        self.restarts += 1
        self.resume = n
        self.start()
        return False


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = SPECS[prop]
    t0 = time.time()
    runs = [r for r in spec["runs"] if tier in r.get("tiers", ("quick", "thorough"))]
    tmp = tempfile.mkdtemp(prefix="vp-%s-" % prop)
    try:
        return explore(prop, tier, seed, spec, runs, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def explore(prop, tier, seed, spec, runs, tmp, t0):
    jobs = []
    for r in runs:
        if "python" in r:
            continue
        exe, lib, gen = build.harness(r["harness"], r.get("full", False), r.get("variant", "opt"))
        shards = r.get("shards", 8)
        for i in range(shards):
            jobs.append(Job(prop, r, exe, tier, i, shards, tmp))
    tb = time.time() - t0
    pending, active, done = list(jobs), [], []
    ncpu = build.JOBS
    deadline = t0 + (spec.get("limit", 800) if tier == "quick" else 6 * 3600)
    timed_out = False
    while pending or active:
        while pending and len(active) < ncpu:
            j = pending.pop(0)
            j.start()
            active.append(j)
        for j in list(active):
            if j.finished():
                active.remove(j)
                done.append(j)
        if time.time() > deadline:
            timed_out = True
            for j in active:
                j.p.kill()
                j.p.wait()
            break
        time.sleep(0.02)
    tot = dict(cases=0, states=0, transitions=0, traces=0, evaluations=0, nontrivial=0)
    counters, samples, viols = {}, [], []
    complete = not timed_out
    bysig = {}
    for j in done:
        for r in j.results:
            for k in tot:
                tot[k] += r[k]
            for k, v in r["counters"].items():
                counters[k] = counters.get(k, 0) + v
            bysig.setdefault(j.run["harness"], []).extend(r["samples"][:2])
            complete = complete and r["complete"]
            for v in r["violations"]:
                viols.append((v["signature"], v["details"], j))
        for sig, det in j.crashes:
            viols.append((sig, det, j))
            complete = False
    for h, s in bysig.items():
        samples += s[:3]
    for r in runs:
        if "python" in r:
            mod = __import__(r["python"])
            pr = mod.run(prop, tier, tmp, r)
            for k in tot:
                tot[k] += pr.get(k, 0)
            for k, v in pr.get("counters", {}).items():
                counters[k] = counters.get(k, 0) + v
            samples += pr.get("samples", [])[:3]
            complete = complete and pr.get("complete", True)
            class PJ:
                run = r
            for sig, det in pr["violations"]:
                viols.append((sig, det, PJ))

    known = [k for k in load_known() if k["property"] == prop and k.get("status", "open") == "open"]
    seen, new = {}, []
    for sig, det, j in viols:
        for k in known:
            if re.search(k["match"], sig):
                seen[k["id"]] = k
                break
        else:
            new.append((sig, det, j))
    for k in known:
        if k["id"] in seen:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    wall = time.time() - t0
    level = spec.get("level", "model_checking")
    cov = {"exhaustive": bool(complete), "bounds": spec["bounds"][tier] if isinstance(spec["bounds"], dict) else spec["bounds"],
           "cases": tot["cases"], "counters": counters, "samples": samples, "build_s": round(tb, 1)}
    cov.update(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["traces"])
    cov["evaluations"] = tot["evaluations"] or tot["cases"]
    cov["distinct_nontrivial"] = tot["nontrivial"]
    cov["rule"] = spec.get("rule", "")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": spec.get("assumptions", []),
          "wall_s": round(wall, 2), "violations": len(new), "known_findings": sorted(seen)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    if new:
        rd = os.path.join(VERIF, "replay")
        os.makedirs(rd, exist_ok=True)
        for n, (sig, det, j) in enumerate(new[:10]):
            path = os.path.join(rd, "%s-%d.json" % (prop, n))
            with open(path, "w") as f:
                json.dump({"property": prop, "tier": tier, "run": j.run, "case": sig.split(" ", 1)[0], "signature": sig, "details": det}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s" % sig[:600])
            print("  %s" % det[:1500].replace("\n", "\n  "))
        return 1
    if timed_out:
        print("ERROR: exploration did not finish in time")
        return 2
    print("OK property=%s tier=%s cases=%d states=%d transitions=%d traces=%d wall=%.1fs (build %.1fs)" % (
        prop, tier, tot["cases"], tot["states"], tot["transitions"], tot["traces"], wall, tb))
    return 0


def replay(path):
    d = json.load(open(path))
    r = d["run"]
    if "python" in r:
        print(d["details"])
        return 1
    exe, lib, gen = build.harness(r["harness"], r.get("full", False), r.get("variant", "opt"))
    tmp = tempfile.mkdtemp(prefix="vp-replay-")
    env = dict(os.environ, VP_SCRATCH=tmp, LC_ALL="C.UTF-8")
    try:
        return subprocess.call([exe, "--tier", d["tier"], "--replay", d["case"]] + r.get("args", []), cwd=tmp, env=env)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except build.BuildError as e:
        print("ERROR: build failed: %s" % e)
        sys.exit(2)
