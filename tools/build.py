#!/usr/bin/env python3
"""Builds harness binaries from /repo's current working tree (content-hash cached in /verif/build).

Every object is keyed by the hash of its own source, of every header in the tree and of the flags, so a
changed tree can never be judged with stale objects, whatever its time stamps say.
"""
import fcntl, hashlib, os, re, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
CXX = "g++"
JOBS = int(os.environ.get("VP_JOBS", "8"))
VARIANTS = {
    "opt": ["-O1", "-D_GLIBCXX_ASSERTIONS"],
    "fast": ["-O2"],
    "asan": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
}
COMMON = ["-std=gnu++17", "-w", "-pipe", "-pthread"]


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:32]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_files(root, exts):
    out = []
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            if os.path.splitext(f)[1] in exts:
                out.append(os.path.join(d, f))
    return out


_memo = {}


def headers_hash():
    if "hh" not in _memo:
        parts = []
        for f in tree_files(os.path.join(REPO, "TameParse"), {".h", ".hpp", ".inc"}):
            parts += [os.path.relpath(f, REPO), read(f)]
        _memo["hh"] = sha(*parts)
    return _memo["hh"]


def harness_headers_hash():
    if "hhh" not in _memo:
        parts = []
        for f in tree_files(os.path.join(VERIF, "harness"), {".h"}):
            parts += [os.path.relpath(f, VERIF), read(f)]
        _memo["hhh"] = sha(*parts)
    return _memo["hhh"]


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode != 0:
        raise BuildError("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), p.stdout.decode(errors="replace")[-6000:]))
    return p.stdout


def cc(src, variant, extra, extra_key=""):
    flags = COMMON + VARIANTS[variant] + extra
    key = sha("obj2", os.path.basename(src), read(src), headers_hash(), " ".join(flags), extra_key)
    out = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d.tmp" % os.getpid()
        run([CXX] + flags + ["-c", src, "-o", tmp])
        os.rename(tmp, out)
    else:
        os.utime(out)
    return out


def cc_all(jobs):
    with ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(lambda j: cc(*j), jobs))


def core_sources():
    out = []
    for d in ("Util", "Dfa", "ContextFree", "Lr"):
        out += tree_files(os.path.join(REPO, "TameParse", d), {".cpp"})
    return out


def gen_dir(variant="opt"):
    """Runs the bootstrap tool built from the tree: returns a directory with definition_tp.h, tameparse_language.{h,cpp}"""
    defn = read(os.path.join(REPO, "TameParse/Language/definition.tp"))
    allsrc = []
    for f in tree_files(os.path.join(REPO, "TameParse"), {".cpp"}) + tree_files(os.path.join(REPO, "bootstrap"), {".cpp", ".am"}):
        allsrc += [os.path.relpath(f, REPO), read(f)]
    key = sha("gen", headers_hash(), defn, *allsrc)
    d = os.path.join(BUILD, "gen", key)
    if os.path.exists(os.path.join(d, "ok")):
        return d
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "definition.tp"), "wb") as f:
        f.write(defn)
    with open(os.path.join(d, "definition_tp.h"), "wb") as f:
        f.write(run(["xxd", "-i", "definition.tp"], cwd=d))
    am = read(os.path.join(REPO, "bootstrap/Makefile.am")).decode()
    srcs = re.findall(r"\.\./(TameParse/[A-Za-z0-9_/]+\.cpp)", am)
    jobs = []
    for s in sorted(set(srcs)):
        p = os.path.join(REPO, s)
        if not os.path.exists(p):
            continue
        if s.startswith("TameParse/Compiler"):
            jobs.append((p, variant, ["-I" + REPO, "-DTAMEPARSE_BOOTSTRAP=1"]))
        elif s.endswith("Language/bootstrap.cpp"):
            jobs.append((p, variant, ["-I" + REPO, "-I" + d]))
        else:
            jobs.append((p, variant, ["-I" + REPO]))
    jobs.append((os.path.join(REPO, "bootstrap/main.cpp"), variant, ["-I" + REPO, "-DTAMEPARSE_BOOTSTRAP=1"]))
    objs = cc_all(jobs)
    exe = os.path.join(d, "bootstrap")
    run([CXX, "-pthread"] + VARIANTS[variant] + objs + ["-o", exe])
    run([exe], cwd=d, timeout=300)
    open(os.path.join(d, "ok"), "w").close()
    return d


def lib_objects(full, variant):
    jobs = [(s, variant, ["-I" + REPO]) for s in core_sources()]
    if not full:
        return cc_all(jobs), None
    d = gen_dir("opt")
    gk = sha(read(os.path.join(d, "tameparse_language.h")))
    for sub in ("Language", "Compiler"):
        for s in tree_files(os.path.join(REPO, "TameParse", sub), {".cpp"}):
            # Only these two see generated files
            b = os.path.basename(s)
            if b in ("bootstrap.cpp", "language_parser.cpp") or b"tameparse_language" in read(s):
                jobs.append((s, variant, ["-I" + REPO, "-I" + d], gk))
            else:
                jobs.append((s, variant, ["-I" + REPO]))
    for s in tree_files(os.path.join(REPO, "TameParse"), {".cpp"}):
        if os.path.dirname(s) == os.path.join(REPO, "TameParse"):
            jobs.append((s, variant, ["-I" + REPO]))
    jobs.append((os.path.join(d, "tameparse_language.cpp"), variant, ["-I" + REPO, "-I" + d], gk))
    return cc_all(jobs), d


def ar(objs, variant):
    key = sha("ar", variant, *objs)
    out = os.path.join(BUILD, "lib", key + ".a")
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d.tmp" % os.getpid()
        if os.path.exists(tmp):
            os.unlink(tmp)
        run(["ar", "rcs", tmp] + objs)
        os.rename(tmp, out)
    return out


def harness(name, full=False, variant="opt"):
    """Builds /verif/harness/<name>.cpp against the tree; returns the executable"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        objs, d = lib_objects(full, variant)
        lib = ar(objs, variant)
        src = os.path.join(VERIF, "harness", name + ".cpp")
        inc = ["-I" + REPO, "-I" + os.path.join(VERIF, "harness")] + (["-I" + d] if d else [])
        h = cc(src, variant, inc, harness_headers_hash())
        dynamic = b"// link: dynamic" in read(src)         # Loads code at run time which uses the library
        more = []
        if b"// tool: linked" in read(src):                 # Calls the command line tool
            parts = [read(f) for f in tree_files(os.path.join(REPO, "parsetool"), {".h"})]
            hk = sha(*parts) if parts else ""
            more = cc_all([(s, variant, ["-I" + REPO, "-Dmain=tool_main"], hk) for s in tree_files(os.path.join(REPO, "parsetool"), {".cpp"})])
        key = sha("exe", h, lib, variant, str(dynamic), *more)
        exe = os.path.join(BUILD, "bin", name + "-" + key)
        if not os.path.exists(exe):
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            tmp = exe + ".%d.tmp" % os.getpid()
            libs = ["-rdynamic", "-Wl,--whole-archive", lib, "-Wl,--no-whole-archive", "-ldl"] if dynamic else [lib]
            run([CXX, "-pthread"] + VARIANTS[variant] + [h] + more + libs + (["-lboost_system", "-lboost_filesystem", "-lboost_program_options"] if more else []) + ["-o", tmp])
            os.rename(tmp, exe)
        prune()
    return exe, lib, d


def tameparse_tool(variant="opt"):
    """Builds the tameparse command line tool from the tree"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        objs, d = lib_objects(True, variant)
        lib = ar(objs, variant)
        parts = [read(f) for f in tree_files(os.path.join(REPO, "parsetool"), {".h"})]
        hk = sha(*parts) if parts else ""
        jobs = [(s, variant, ["-I" + REPO], hk) for s in tree_files(os.path.join(REPO, "parsetool"), {".cpp"})]
        po = cc_all(jobs)
        key = sha("tool", lib, *po)
        exe = os.path.join(BUILD, "bin", "tameparse-" + key)
        if not os.path.exists(exe):
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            tmp = exe + ".%d.tmp" % os.getpid()
            run([CXX, "-pthread"] + VARIANTS[variant] + po + [lib, "-lboost_system", "-lboost_filesystem", "-lboost_program_options", "-o", tmp])
            os.rename(tmp, exe)
    return exe, lib, d


def prune(limit=1500 << 20):
    """Keeps the cache bounded: oldest files go first"""
    fs = []
    for sub in ("obj", "lib", "bin"):
        p = os.path.join(BUILD, sub)
        if os.path.isdir(p):
            for f in os.listdir(p):
                q = os.path.join(p, f)
                st = os.stat(q)
                fs.append((st.st_mtime, st.st_size, q))
    tot = sum(f[1] for f in fs)
    import time
    for m, s, q in sorted(fs):
        if tot < limit or time.time() - m < 1800:
            break
        os.unlink(q)
        tot -= s


if __name__ == "__main__":
    import time
    t = time.time()
    if sys.argv[1] == "tool":
        print(tameparse_tool()[0])
    else:
        print(harness(sys.argv[1], "full" in sys.argv[2:], "asan" if "asan" in sys.argv[2:] else "opt")[0])
    print("%.1fs" % (time.time() - t))
