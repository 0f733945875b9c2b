"""The state left by initialisation, and which parameters it accepts.

The parameters the program computes at start-up are obtained by constant
propagation through Param::init (the abstract state every other analysis starts
from) and compared with independently computed ones."""
import ref, build, world
from dom import W, UNDEF, AnalysisError, pconst
from irx import Violation, PathEnd, locstr


class Params:
    def __init__(self, w):
        self.w = w

    def c(self, f, args=()):
        T = self.w.call1(self.w.S.fork(), f, list(args))
        if T.result[0] != "ret" or type(T.result[1]) is not int:
            raise Violation("init", "%s is not determined by the initialisation" % f)
        return T.result[1]

    def fp(self, a, n=1):
        out = []
        for k in range(n):
            v = 0
            for i in range(4):
                x = self.w.S.ld(a + 32 * k + 8 * i, 8, 0)
                if type(x) is not int:
                    raise Violation("init", "a parameter is not set by the initialisation")
                v |= x << (64 * i)
            out.append(v)
        return out

    def vsint(self, a):
        v = self.w.vuint(self.c("d_VS_get", [a]))
        return -v if self.c("d_VS_isNeg", [a]) & 255 else v


def check(w, E, r, cfg):
    P = Params(w)
    p = E.p

    def sgn(v, n=32):
        return v - (1 << n) if v >> (n - 1) else v
    mont = lambda xs: [x * E.R % p for x in xs]
    g = E.pow2(E.xi, (p - 1) // 6)
    g2 = E.pow2(E.xi, (p * p - 1) // 6)
    g3 = E.pow2(E.xi, (p ** 3 - 1) // 6)

    def powers(x):
        out = []; y = x
        for i in range(5):
            out += list(y); y = E.m2(y, x)
        return out
    tests = [
        ("z", lambda: P.vsint(P.c("d_P_z")), E.z),
        ("p", lambda: w.vuint(P.c("d_P_p")), p), ("r", lambda: w.vuint(P.c("d_P_r")), E.r), ("t", lambda: w.vuint(P.c("d_P_t")), E.t),
        ("largest_c", lambda: P.vsint(P.c("d_P_largest_c")), 6 * E.z + 2),
        ("b", lambda: sgn(P.c("d_P_b")), E.b),
        ("i0", lambda: P.fp(P.c("d_P_i0")), [0]), ("i1", lambda: P.fp(P.c("d_P_i1")), mont([1])), ("half", lambda: P.fp(P.c("d_P_half")), mont([pow(2, -1, p)])),
        ("b_invxi", lambda: P.fp(P.c("d_P_b_invxi"), 2), mont(E.bt)),
        ("Z", lambda: P.fp(P.c("d_P_Z")), mont([pow(E.pow2(E.xi, (p * p - 1) // 6)[0], 2, p)])),
        ("W2p", lambda: P.fp(P.c("d_P_W2p"), 2), mont(E.pow2(E.xi, (p - 1) // 3))),
        ("W3p", lambda: P.fp(P.c("d_P_W3p"), 2), mont(E.pow2(E.xi, (p - 1) // 2))),
        ("gammar", lambda: P.fp(P.c("d_P_gammar"), 10), mont(powers(g))),
        ("gammar2", lambda: P.fp(P.c("d_P_gammar2"), 10), mont(powers(g2))),
        ("gammar3", lambda: P.fp(P.c("d_P_gammar3"), 10), mont(powers(g3))),
        ("siTbl", lambda: digits(P, "d_P_si", sgn), abs(6 * E.z + 2)),
        ("the modulus of Fp", lambda: w.I.p, p),
    ]
    if cfg[0] == "s":
        tests.append(("zReplTbl", lambda: digits(P, "d_P_zr", sgn), abs(E.z)))
    for name, get, want in tests:
        r.obl += 1
        try:
            v = get()
            if v != want:
                raise Violation("init", "Param::%s is not the documented parameter" % name)
            r.dis += 1
        except Violation as e:
            r.viol.append((e.kind, "[%s] %s: %s" % (cfg, name, e.msg), "include/bn.h: ParamT::init"))


def digits(P, f, sgn):
    """integer denoted by a table of signed digits, most significant first"""
    v = 0
    for i in range(P.c(f + "n")):
        d = sgn(P.c(f, [i]))
        if d not in (-1, 0, 1):
            raise Violation("init", "a digit is not -1, 0 or 1")
        v = 2 * v + d
    return v


def accepts(w, r, snark):
    """Param::init returns for the supported parameters and refuses all others"""
    I = w.I; D = I.D
    want = [ref.SNARK1, ref.SNARK2] if snark else [ref.BN254]
    tup = [(z % (1 << 64), b, xa, 1) for z, b, xa in want]
    S = w.S.fork()
    import spec
    D.asm = {}; D.facts = spec.Facts(); S.asm = {}; S.facts = D.facts
    a = S.new(24, "CurveParam")
    vs = []
    for nm, off, n in (("z", 0, 8), ("b", 8, 4), ("xi_a", 12, 4), ("xi_b", 16, 4)):
        i = D.atom("cp." + nm, 0, (1 << (8 * n)) - 1)
        S.st(a + off, n, D.mk({(i,): 1}, 0, (1 << (8 * n)) - 1))
        vs.append(i)

    def go(S, args, loc):
        raise PathEnd("accepted")
    stop = [n for n in w.m.funcs if w.m.demangled(n).split("(")[0] in ("mie::zmInit",) or w.m.demangled(n).startswith("mie::Fp::setModulo(")]
    for n in stop:
        I.models[n] = go
    r.obl += 1
    seen = set()
    try:
        outs = w.R.call(S, "d_initcp", [a, 0, 0])
        for T in outs:
            if T.result[0] == "end" and T.result[1] == "infeasible":
                continue
            r.paths += 1
            D.asm = T.asm; D.facts = T.facts
            val = []
            for i in vs:
                q = D.subst({(i,): 1}, T.asm)
                val.append(q.get((), 0) if not q or list(q) == [()] else None)
            if T.result[0] == "end" and T.result[1] == "accepted":
                if tuple(val) not in tup:
                    raise Violation("init", "accepts parameters that are not supported (%s)" % ", ".join("%s=%s" % (n, "any" if v is None else v) for n, v in zip(("z", "b", "xi_a", "xi_b"), val)))
                seen.add(tuple(val))
            elif T.result[0] == "end" and T.result[1] == "exit":
                # must be inconsistent with every supported tuple
                for t in tup:
                    if possible(D, T, vs, t):
                        raise Violation("init", "refuses supported parameters")
            else:
                raise Violation("init", "neither accepts nor refuses the parameters (%s)" % (T.result[:2],))
        if seen != set(tup):
            raise Violation("init", "a supported curve is not accepted")
        r.dis += 1
    except Violation as e:
        r.viol.append((e.kind, "Param::init: %s" % e.msg, "include/bn.h: ParamT::init"))


def possible(D, T, vs, t):
    """may the path be taken with these parameters?"""
    env = {i: pconst(v) for i, v in zip(vs, t)}
    for i, q in T.asm.items():
        a = D.atoms[i]
        l = D.subst(q, env)
        if i in env:
            if l != env[i]:
                return False
        elif a.kind == "eq" and a.defn is not None and type(a.defn) is dict:
            d = D.subst(a.defn, env)
            if not d or list(d) == [()]:
                if (1 if not d else 0) != l.get((), 0):
                    return False
    for q, lo, hi in T.facts:
        d = D.subst(q, env)
        if (not d or list(d) == [()]) and not lo <= d.get((), 0) <= hi:
            return False
    return True
