"""Compile /repo's current sources to LLVM IR facts (never linked or run)."""
import os, re, subprocess, hashlib, sys, shutil, fcntl, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(ROOT, ".build")
LINK = "/usr/lib/llvm-18/bin/llvm-link"
FLAGS = ["-std=gnu++11", "-O0", "-g1", "-Xclang", "-disable-O0-optnone", "-DNDEBUG", "-DMIE_ATE_USE_GMP", "-fno-access-control"]


class BuildError(Exception):
    pass


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def irdump():
    os.makedirs(CACHE, exist_ok=True)
    src = os.path.join(HERE, "irdump.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(CACHE, "irdump-" + h)
    if not os.path.exists(out):
        fl = [f for f in subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split() if not f.startswith("-std=")]
        tmp = out + ".tmp%d" % os.getpid()
        sh(["clang++-18", "-O1", "-std=c++17"] + fl + [src, "-o", tmp, "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
        os.rename(tmp, out)
    return out


def tree_hash():
    h = hashlib.sha256()
    for d in ("include", "src", "java"):
        for r, ds, fs in sorted(os.walk(os.path.join(REPO, d))):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".h", ".hpp", ".cpp", ".i", ".c")):
                    p = os.path.join(r, f)
                    h.update(p.encode() + b"\0" + open(p, "rb").read())
    for f in ("irdump.cpp", "driver.cpp", "build.py"):
        h.update(open(os.path.join(HERE, f), "rb").read())
    return h.hexdigest()[:20]


def prune(drv, fl, t):
    """the driver without the entry points that no longer compile (a renamed or
    removed internal function only loses its own analysis)"""
    text = open(drv).read().split("\n")
    cur = drv
    for rnd in range(12):
        r = subprocess.run(["clang++"] + [f for f in fl if f not in ("-c", "-emit-llvm")] + ["-fsyntax-only", "-ferror-limit=0", cur],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            return cur
        bad = set()
        for m in re.finditer(re.escape(os.path.basename(cur)) + r":(\d+):\d+: (?:error|note: (?:expanded|in instantiation))", r.stdout):
            bad.add(int(m.group(1)) - 1)
        bad = {i for i in bad if i < len(text) and (text[i].startswith("X ") or re.match(r"[A-Z][A-Z0-9]*\(", text[i]))}
        if not bad:
            raise BuildError("%s\n%s" % (drv, r.stdout[-3000:]))
        for i in bad:
            text[i] = ""
        cur = os.path.join(t, "driver_pruned.cpp")
        open(cur, "w").write("\n".join(text))
    raise BuildError("entry points do not compile")


def facts(snark=False, driver="driver.cpp", extra=()):
    """path of the IR facts of zm.cpp + zm2.cpp + driver"""
    d = irdump()
    key = "%s-%s%s" % (tree_hash(), "snark" if snark else "default", "".join(extra).replace("/", "_").replace(" ", ""))
    out = os.path.join(CACHE, "ir-%s.jsonl" % key)
    lock = open(os.path.join(CACHE, "lock-%s" % ("s" if snark else "d")), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(out):
            return out
        for f in os.listdir(CACHE):
            if f.startswith("ir-") and f.endswith(("snark" if snark else "default") + "".join(extra) + ".jsonl"):
                os.unlink(os.path.join(CACHE, f))
        t = tempfile.mkdtemp(dir=CACHE)
        try:
            fl = FLAGS + (["-DBN_SUPPORT_SNARK"] if snark else []) + list(extra) + ["-I%s/src" % REPO, "-I%s/include" % REPO, "-c", "-emit-llvm"]
            ps = []
            drv = os.path.join(HERE, driver)
            srcs = [os.path.join(REPO, "src/zm.cpp"), os.path.join(REPO, "src/zm2.cpp"), prune(drv, fl, t)]
            for i, s in enumerate(srcs):
                ps.append(subprocess.Popen(["clang++"] + fl + [s, "-o", "%s/%d.bc" % (t, i)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
            for p, s in zip(ps, srcs):
                o = p.communicate()[0]
                if p.returncode:
                    raise BuildError("%s\n%s" % (s, o[-4000:]))
            sh([LINK] + ["%s/%d.bc" % (t, i) for i in range(len(srcs))] + ["-o", t + "/a.bc"])
            sh(["opt-18", "-passes=mem2reg", t + "/a.bc", "-o", t + "/b.bc"])
            with open(t + "/o.jsonl", "w") as f:
                r = subprocess.run([d, t + "/b.bc"], stdout=f, stderr=subprocess.PIPE, text=True)
                if r.returncode:
                    raise BuildError(r.stderr)
            os.rename(t + "/o.jsonl", out)
        finally:
            shutil.rmtree(t, ignore_errors=True)
        return out
    finally:
        lock.close()


if __name__ == "__main__":
    import time
    t = time.time()
    print(facts(False), facts(True), time.time() - t)
