"""Abstract state after static initialisation + Param::init, per configuration."""
import os, sys, time, pickle, hashlib
sys.setrecursionlimit(100000)
import build
from values import *

CONFIGS = {  # name: (snark, mode, mulx, cpu, entry)
    "d00": (False, 0, 0, None, "d_init"),
    "d01": (False, 0, 1, None, "d_init"),
    "d10": (False, 1, 0, None, "d_init"),
    "d11": (False, 1, 1, None, "d_init"),
    "s00": (True, 0, 0, None, "d_init"),
    "s01": (True, 0, 1, None, "d_init"),
    "s10": (True, 1, 0, None, "d_init"),
    "s11": (True, 1, 1, None, "d_init"),
    "s2":  (True, 0, 1, None, "d_init2"),
}
# initialised twice (the first configuration decides about the generated code)
AGAIN = {
    "d2": (False, 0, 1, None, ("d_init", "d_init")),
    "s21": (True, 0, 1, None, ("d_init2", "d_init")),
    "s12": (True, 0, 1, None, ("d_init", "d_init2")),
}


class World:
    def __init__(self, snark=False):
        self.m = Module(build.facts(snark))
        self.I = AI(self.m)
        self.R = Run(self.I)
        self.S = State(self.I)

    def call1(self, S, name, args):
        """run to the single final state"""
        out = self.R.call(S, name, args)
        if len(out) != 1:
            raise AnalysisError("%s split into %d partitions" % (name, len(out)))
        return out[0]

    def ctors(self):
        for n in self.m.funcs:
            if n.startswith("_GLOBAL__sub_I"):
                self.S = self.call1(self.S, n, [])

    def init(self, entry, args):
        self.S = self.call1(self.S, entry, args)
        return self.S.result


def engine_hash():
    h = hashlib.sha256()
    d = os.path.dirname(os.path.abspath(__file__))
    for f in ("dom.py", "irx.py", "models.py", "gmpmodel.py", "x64.py", "values.py", "world.py"):
        h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()[:12]


def load(cfg, log=None):
    """World after initialisation in configuration cfg (cached by content)"""
    snark, mode, mulx, cpu, entry = CONFIGS.get(cfg) or AGAIN[cfg]
    w = World(snark)
    if cpu:
        w.I.cpu = dict(cpu)
    key = "world-%s-%s-%s.pkl" % (cfg, build.tree_hash(), engine_hash())
    path = os.path.join(build.CACHE, key)
    if os.path.exists(path):
        try:
            with open(path, "rb") as f:
                d = pickle.load(f)
            w.m.faddr = d["faddr"]; w.m.fbyaddr = d["fbyaddr"]
            S = w.S
            S.next = d["next"]; S.gmap = d["gmap"]
            for o in d["mem"]:
                o.owner = None
                S.mem[o.id] = o
            w.setp()
            return w
        except (EOFError, pickle.UnpicklingError, OSError):
            pass
    w.ctors()
    w.S = w.call1(w.S, w.m.dem["mie::zmInit()"], [])
    for e in (entry if type(entry) is tuple else (entry,)):
        r = w.init(e, [mode & 0xffffffff, mulx])
        if r[0] != "ret":
            raise Violation("init", "initialisation does not return: %r" % (r,))
    for o in w.S.mem.values():
        o.owner = None
    w.S.lineage = object()
    tmp = path + ".tmp%d" % os.getpid()
    try:
        for f in os.listdir(build.CACHE):
            if f.startswith("world-%s-" % cfg):
                os.unlink(os.path.join(build.CACHE, f))
        with open(tmp, "wb") as f:
            pickle.dump({"faddr": w.m.faddr, "fbyaddr": w.m.fbyaddr, "next": w.S.next, "gmap": w.S.gmap, "mem": list(w.S.mem.values())}, f, -1)
        os.rename(tmp, path)
    except OSError:
        pass
    w.setp()
    return w


def setp(w):
    """read the modulus from the initialised state"""
    T = w.call1(w.S.fork(), "d_modulo", [])
    w.I.p = w.vuint(T.result[1])
World.setp = setp


def vuint(w, a, S=None):
    """constant big integer at address a"""
    S = S or w.S
    n = w.call1(S.fork(), "d_V_size", [a]).result[1]
    v = 0
    for i in range(n):
        v |= w.call1(S.fork(), "d_V_at", [a, i]).result[1] << (64 * i)
    return v
World.vuint = vuint


def inval(w, name, lo, hi, n=4):
    return w.I.newval(name, lo, hi, n)
World.inval = inval


if __name__ == "__main__":
    t = time.time()
    w = load(sys.argv[1])
    print(hex(w.I.p), time.time() - t)
