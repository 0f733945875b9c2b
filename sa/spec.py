"""Reference semantics of the tower operations, used both as proof obligations
(for the level that implements an operation) and as contracts (for the levels
above).  Written from the mathematics, not from the library source."""
from dom import *
from dom import W, FV, UNDEF, AnalysisError, pconst, psub, padd, pscale, pkey
from irx import DECLINE, Violation, locstr

T = {"F": (1, 4), "D": (1, 8), "F2": (2, 4), "D2": (2, 8), "F6": (6, 4), "D6": (6, 8), "F12": (12, 4), "D12": (12, 8)}


def tsz(t):
    c, n = T[t]
    return 8 * c * n


class Out:
    """result component: residue `poly`, range [0,hi]; exact => equal as integer"""
    __slots__ = ("poly", "hi", "exact", "kind")

    def __init__(self, poly, hi, exact=False, kind="fld"):
        self.poly = poly; self.hi = hi; self.exact = exact; self.kind = kind


class Op:
    def __init__(self, name, slot, drv, outs, ins, pre=None, fn=None, rel=None, inout=False, ret=False, noalias=(), cfg=None, dfn={}):
        self.dfn = dfn        # weaker result bound for particular implementations
        self.name = name      # display name
        self.slot = slot      # demangled global holding the function pointer, or None
        self.drv = drv        # driver entry points implementing it
        self.outs = outs      # [type]
        self.ins = ins        # [(type, range)]
        self.fn = fn          # list of polys per input -> list of Out
        self.rel = rel        # relational preconditions: polys -> [(poly, lo, hi)]
        self.inout = inout    # first argument is also first input
        self.noalias = noalias
        self.wide = None      # contract with a weaker precondition, tried second
        self.cfg = cfg
        self.level = {'F': 0, 'D': 0, 'F2': 1, 'D2': 1, 'F6': 2, 'D6': 2, 'F12': 3, 'D12': 3}[max([outs[0]] + [t for t, r in ins], key=lambda t: T[t][0])]


class Alg:
    """polynomial algebra of the tower F_p ⊂ F_p2=F_p[u]/(u²+1) ⊂ F_p6=F_p2[v]/(v³-xi) ⊂ F_p12=F_p6[w]/(w²-v)"""

    def __init__(self, D, p, xia):
        self.D = D; self.p = p; self.xia = xia

    def red(self, a):
        return {m: c % self.p for m, c in a.items() if c % self.p}

    def add(self, a, b): return padd(a, b)
    def sub(self, a, b): return psub(a, b)
    def mul(self, a, b): return self.D.pmul(a, b)
    def sc(self, a, k): return pscale(a, k)
    # vectors
    def vadd(self, x, y): return [padd(a, b) for a, b in zip(x, y)]
    def vsub(self, x, y): return [psub(a, b) for a, b in zip(x, y)]
    def vneg(self, x): return [pscale(a, -1) for a in x]
    def vsc(self, x, k): return [pscale(a, k) for a in x]
    def vmulF(self, x, b): return [self.mul(a, b) for a in x]

    def m2(self, x, y):
        return [psub(self.mul(x[0], y[0]), self.mul(x[1], y[1])), padd(self.mul(x[0], y[1]), self.mul(x[1], y[0]))]

    def xi2(self, x):
        k = self.xia
        return [psub(pscale(x[0], k), x[1]), padd(x[0], pscale(x[1], k))]

    def m6(self, x, y):
        X = [x[0:2], x[2:4], x[4:6]]; Y = [y[0:2], y[2:4], y[4:6]]
        z = [[{}, {}] for _ in range(3)]
        for i in range(3):
            for j in range(3):
                t = self.m2(X[i], Y[j])
                if i + j >= 3:
                    t = self.xi2(t)
                z[(i + j) % 3] = self.vadd(z[(i + j) % 3], t)
        return z[0] + z[1] + z[2]

    def v6(self, x):
        """x * v"""
        return self.xi2(x[4:6]) + x[0:4]

    def m12(self, x, y):
        a, b, c, d = x[:6], x[6:], y[:6], y[6:]
        return self.vadd(self.m6(a, c), self.v6(self.m6(b, d))) + self.vadd(self.m6(a, d), self.m6(b, c))


B256 = 1 << 256
B512 = 1 << 512


def ops(I, snark):
    D = I.D; p = I.p
    A = Alg(D, p, 9 if snark else 1)
    I.alg = A
    R = B256 % p
    Ri = pow(R, p - 2, p)
    pN = p << 256
    C = p - 1
    half = (p + 1) // 2
    L = []

    def can(polys): return [Out(q, C) for q in polys]
    def ex(polys, hi): return [Out(q, hi, True) for q in polys]

    def op(name, slot, drv, outs, ins, fn, **kw):
        L.append(Op(name, slot, drv, outs, ins, fn=fn, **kw))
    RNG = {"c": (0, C), "2": (0, 2 * C), "3": (0, 3 * C), "w": (0, B256 - 1), "N": (0, pN - 1), "W": (0, B512 - 1)}
    I.RNG = RNG
    F = "mie::Fp::"
    FD = "mie::Fp::Dbl::"
    mont = lambda q: pscale(q, Ri)
    # ---------------------------------------------------------------- Fp
    op("Fp::add", F + "add", ["d_Fp_add"], ["F"], [("F", "c"), ("F", "c")], lambda x, y: can(A.vadd(x, y)))
    op("Fp::sub", F + "sub", ["d_Fp_sub"], ["F"], [("F", "c"), ("F", "c")], lambda x, y: can(A.vsub(x, y)))
    op("Fp::sub (wide)", None, ["d_Fp_sub"], ["F"], [("F", "w"), ("F", "w")], lambda x, y: can(A.vsub(x, y)), rel=lambda x, y: [(psub(x[0], y[0]), -p, C)])
    op("Fp::neg", F + "neg", ["d_Fp_neg"], ["F"], [("F", "c")], lambda x: can(A.vneg(x)))
    op("Fp::addNC", F + "addNC", ["d_Fp_addNC"], ["F"], [("F", "w"), ("F", "w")], lambda x, y: ex(A.vadd(x, y), B256 - 1),
       rel=lambda x, y: [(padd(x[0], y[0]), 0, B256 - 1)])
    op("Fp::subNC", F + "subNC", ["d_Fp_subNC"], ["F"], [("F", "w"), ("F", "w")], lambda x, y: ex(A.vsub(x, y), B256 - 1),
       rel=lambda x, y: [(psub(x[0], y[0]), 0, B256 - 1)])
    op("Fp::mul", F + "mul", ["d_Fp_mul"], ["F"], [("F", "2"), ("F", "2")], lambda x, y: can([mont(A.mul(x[0], y[0]))]),
       rel=lambda x, y: [(A.mul(x[0], y[0]), 0, pN - 1)])
    lt = lambda x, y: [(D.pmul(a, y[0]), 0, pN - 1) for a in x]
    op("Fp::mul (wide)", None, ["d_Fp_mul"], ["F"], [("F", "3"), ("F", "3")], lambda x, y: can([mont(A.mul(x[0], y[0]))]), rel=lt)
    # ------------------------------------------------------------- FpDbl
    def dn(polys): return [Out(q, pN - 1) for q in polys]
    op("FpDbl::add", FD + "add", ["d_FD_add"], ["D"], [("D", "N"), ("D", "N")], lambda x, y: dn(A.vadd(x, y)))
    op("FpDbl::sub", FD + "sub", ["d_FD_sub"], ["D"], [("D", "N"), ("D", "N")], lambda x, y: dn(A.vsub(x, y)))
    op("FpDbl::neg", FD + "neg", ["d_FD_neg"], ["D"], [("D", "N")], lambda x: dn(A.vneg(x)))
    op("FpDbl::addNC", FD + "addNC", ["d_FD_addNC"], ["D"], [("D", "W"), ("D", "W")], lambda x, y: ex(A.vadd(x, y), B512 - 1),
       rel=lambda x, y: [(padd(x[0], y[0]), 0, B512 - 1)])
    op("FpDbl::subNC", FD + "subNC", ["d_FD_subNC"], ["D"], [("D", "W"), ("D", "W")], lambda x, y: ex(A.vsub(x, y), B512 - 1),
       rel=lambda x, y: [(psub(x[0], y[0]), 0, B512 - 1)])
    op("FpDbl::mul", FD + "mul", ["d_FD_mul"], ["D"], [("F", "w"), ("F", "w")], lambda x, y: ex([A.mul(x[0], y[0])], B512 - 1))
    op("FpDbl::mod", FD + "mod", ["d_FD_mod"], ["F"], [("D", "N")], lambda x: can([mont(x[0])]))
    # --------------------------------------------------------------- Fp2
    F2 = "bn::Fp2T<mie::Fp>::"
    D2 = F2 + "Dbl::"
    cc = [("F2", "c"), ("F2", "c")]
    op("Fp2::add", F2 + "add", ["d_Fp2_add", "d_Fp2_addC"], ["F2"], cc, lambda x, y: can(A.vadd(x, y)))
    op("Fp2::sub", F2 + "sub", ["d_Fp2_sub", "d_Fp2_subC"], ["F2"], cc, lambda x, y: can(A.vsub(x, y)))
    op("Fp2::neg", None, ["d_Fp2_neg"], ["F2"], cc[:1], lambda x: can(A.vneg(x)))
    op("Fp2::addNC", F2 + "addNC", ["d_Fp2_addNC", "d_Fp2_addNC_C"], ["F2"], [("F2", "w"), ("F2", "w")], lambda x, y: ex(A.vadd(x, y), B256 - 1),
       rel=lambda x, y: [(padd(a, b), 0, B256 - 1) for a, b in zip(x, y)])
    op("Fp2::subNC", F2 + "subNC", ["d_Fp2_subNC", "d_Fp2_subNC_C"], ["F2"], [("F2", "w"), ("F2", "w")], lambda x, y: ex(A.vsub(x, y), B256 - 1),
       rel=lambda x, y: [(psub(a, b), 0, B256 - 1) for a, b in zip(x, y)])
    op("Fp2::mul", F2 + "mul", ["d_Fp2_mul", "d_Fp2_mulC"], ["F2"], cc, lambda x, y: can([mont(q) for q in A.m2(x, y)]))
    op("Fp2::square", F2 + "square", ["d_Fp2_square", "d_Fp2_squareC"], ["F2"], cc[:1], lambda x: can([mont(q) for q in A.m2(x, x)]))
    op("Fp2::mul_xi", F2 + "mul_xi", ["d_Fp2_mul_xi", "d_Fp2_mul_xiC"], ["F2"], cc[:1], lambda x: can(A.xi2(x)), noalias=((0, 1),))
    op("Fp2::mul_Fp_0", F2 + "mul_Fp_0", ["d_Fp2_mul_Fp_0", "d_Fp2_mul_Fp_0C"], ["F2"], [("F2", "c"), ("F", "c")], lambda x, b: can([mont(q) for q in A.vmulF(x, b[0])]))
    op("Fp2::mul_Fp_0 (wide)", None, ["d_Fp2_mul_Fp_0"], ["F2"], [("F2", "3"), ("F", "c")], lambda x, b: can([mont(q) for q in A.vmulF(x, b[0])]), rel=lt)
    op("Fp2::divBy2", F2 + "divBy2", ["d_Fp2_divBy2", "d_Fp2_divBy2C"], ["F2"], cc[:1], lambda x: can(A.vsc(x, half)))
    op("Fp::divBy2", None, ["d_Fp_divBy2"], ["F"], [("F", "c")], lambda x: can(A.vsc(x, half)))
    op("Fp::divBy4", None, ["d_Fp_divBy4"], ["F"], [("F", "c")], lambda x: can(A.vsc(x, half * half % p)))
    op("Fp2::divBy4", None, ["d_Fp2_divBy4"], ["F2"], cc[:1], lambda x: can(A.vsc(x, half * half % p)))
    # ------------------------------------------------------------ Fp2Dbl
    nn = [("D2", "N"), ("D2", "N")]
    WW = [("D2", "W"), ("D2", "W")]
    op("Fp2Dbl::add", D2 + "add", ["d_F2D_add", "d_F2D_addC"], ["D2"], nn, lambda x, y: dn(A.vadd(x, y)))
    op("Fp2Dbl::sub", D2 + "sub", ["d_F2D_sub", "d_F2D_subC"], ["D2"], nn, lambda x, y: dn(A.vsub(x, y)))
    op("Fp2Dbl::neg", D2 + "neg", ["d_F2D_neg", "d_F2D_negC"], ["D2"], nn[:1], lambda x: dn(A.vneg(x)))
    op("Fp2Dbl::addNC", D2 + "addNC", ["d_F2D_addNC", "d_F2D_addNC_C"], ["D2"], WW, lambda x, y: ex(A.vadd(x, y), B512 - 1),
       rel=lambda x, y: [(padd(a, b), 0, B512 - 1) for a, b in zip(x, y)])
    op("Fp2Dbl::subNC", D2 + "subNC", ["d_F2D_subNC", "d_F2D_subNC_C"], ["D2"], WW, lambda x, y: ex(A.vsub(x, y), B512 - 1),
       rel=lambda x, y: [(psub(a, b), 0, B512 - 1) for a, b in zip(x, y)])
    op("Fp2Dbl::mul_xi", D2 + "mul_xi", ["d_F2D_mul_xi", "d_F2D_mul_xiC"], ["D2"], nn[:1], lambda x: dn(A.xi2(x)), noalias=((0, 1),))
    def mo(x, y, hia):
        t = A.m2(x, y)
        return [Out(t[0], hia), Out(t[1], B512 - 1, True)]
    op("Fp2Dbl::mulOpt1", D2 + "mulOpt1", ["d_F2D_mulOpt1", "d_F2D_mulOpt1C"], ["D2"], cc, lambda x, y: mo(x, y, C * C + (pN >> 2)), dfn={"d_F2D_mulOpt1C": lambda x, y: mo(x, y, C * C + (pN >> 1))})
    op("Fp2Dbl::mulOpt2", D2 + "mulOpt2", ["d_F2D_mulOpt2", "d_F2D_mulOpt2C"], ["D2"], [("F2", "2"), ("F2", "2")], lambda x, y: mo(x, y, pN - 1))
    def sq(x):
        t = A.m2(x, x)
        return [Out(t[0], 4 * p * p), Out(t[1], 2 * C * C, True)]
    op("Fp2Dbl::square", D2 + "square", ["d_F2D_square", "d_F2D_squareC"], ["D2"], cc[:1], sq)
    op("Fp2Dbl::mod", D2 + "mod", ["d_F2D_mod", "d_F2D_modC"], ["F2"], nn[:1], lambda x: can([mont(q) for q in x]))
    # --------------------------------------------------------------- Fp6
    F6 = "bn::Fp6T<bn::Fp2T<mie::Fp>>::"
    c6 = [("F6", "c"), ("F6", "c")]
    op("Fp6::add", F6 + "add", ["d_Fp6_add", "d_Fp6_addC"], ["F6"], c6, lambda x, y: can(A.vadd(x, y)))
    op("Fp6::sub", F6 + "sub", ["d_Fp6_sub", "d_Fp6_subC"], ["F6"], c6, lambda x, y: can(A.vsub(x, y)))
    op("Fp6::neg", None, ["d_Fp6_neg"], ["F6"], c6[:1], lambda x: can(A.vneg(x)))
    op("Fp6::mul", F6 + "mul", ["d_Fp6_mul", "d_Fp6_mulC"], ["F6"], c6, lambda x, y: can([mont(q) for q in A.m6(x, y)]))
    op("Fp6::square", None, ["d_Fp6_square"], ["F6"], c6[:1], lambda x: can([mont(q) for q in A.m6(x, x)]), noalias=((0, 1),))
    op("Fp6Dbl::mul", F6 + "Dbl::mul", ["d_F6D_mul", "d_F6D_mulC"], ["D6"], c6, lambda x, y: dn(A.m6(x, y)))
    # -------------------------------------------------------------- Fp12
    F12 = "bn::Fp12T<bn::Fp6T<bn::Fp2T<mie::Fp>>>::"
    c12 = [("F12", "c"), ("F12", "c")]
    op("Fp12::add", None, ["d_Fp12_add"], ["F12"], c12, lambda x, y: can(A.vadd(x, y)))
    op("Fp12::sub", None, ["d_Fp12_sub"], ["F12"], c12, lambda x, y: can(A.vsub(x, y)))
    op("Fp12::neg", None, ["d_Fp12_neg"], ["F12"], c12[:1], lambda x: can(A.vneg(x)))
    op("Fp12::mul", F12 + "mul", ["d_Fp12_mul", "d_Fp12_mulC"], ["F12"], c12, lambda x, y: can([mont(q) for q in A.m12(x, y)]))
    op("Fp12::square", F12 + "square", ["d_Fp12_square", "d_Fp12_squareC"], ["F12"], c12[:1], lambda x: can([mont(q) for q in A.m12(x, x)]), inout=True)
    return {o.name: o for o in L}


# ------------------------------------------------------------- contract use
def contract(I, op):
    """summary of `op` for callers: checks its preconditions, writes results"""
    D = I.D
    no = 1
    rng = I.RNG

    def apply(S, args, loc):
        I.ncontract += 1
        k = 0 if op.inout else 1
        ins = []
        for j, (t, r) in enumerate(op.ins):
            c, n = T[t]
            lim = rng[r][1]
            vs = []
            a = args[k + j]
            for q in range(c):
                v = I.rd(S, a + 8 * n * q if type(a) is int else D.add(a, 8 * n * q, 64), n, loc)
                if v.hi > lim or v.lo < 0:
                    l, h = D.rng2(v.p)
                    if l < 0 or h > lim:
                        if op.wide:
                            return op.wide(S, args, loc)
                        if I.rawfallback:
                            return DECLINE
                        raise Violation("range", "operand %d of %s is not within its required range (bound %s, may reach %s)" % (j + 1, op.name, bits(lim), bits(h)), loc)
                vs.append(v)
            ins.append(vs)
        polys = [[v.p for v in vs] for vs in ins]
        if op.rel:
            for (q, lo, hi) in op.rel(*polys):
                l, h = D.rng2(q)
                if l < lo or h > hi:
                    l, h = D.rng2(D.expand(q, pure=True))
                if l < lo or h > hi:
                    if I.rawfallback:
                        return DECLINE
                    raise Violation("range", "operands of %s violate its precondition (value may reach [%s, %s])" % (op.name, bits(l), bits(h)), loc)
        outs = op.fn(*polys)
        put(I, S, args[0], op.outs[0], outs, loc)
        return None
    return apply


def bits(v):
    return "%s2^%.2f" % ("-" if v < 0 else "", 0 if v == 0 else __import__("math").log2(abs(v)))


def put(I, S, addr, t, outs, loc):
    D = I.D
    c, n = T[t]
    for q, o in enumerate(outs):
        if o.exact:
            l, h = D.rng2(o.poly)
            v = FV(o.poly, max(l, 0), min(h, o.hi), n)
        else:
            v = I.fld(o.poly, o.hi, n, S=S)
        I.wr(S, addr + 8 * n * q, v, loc)


# ------------------------------------------------------------------ checking
def alias_patterns(no, types, noalias):
    """all ways output/inputs may share an object (same type only)"""
    n = len(types)
    res = []

    def rec(i, part):
        if i == n:
            res.append(list(part))
            return
        for b in range(max(part, default=-1) + 2):
            # object index b shared with earlier argument of the same type
            js = [j for j in range(i) if part[j] == b]
            if js and any(types[j] != types[i] for j in js):
                continue
            if any((j, i) in noalias for j in js):
                continue
            rec(i + 1, part + [b])
    rec(0, [])
    return res


class Result:
    def __init__(self):
        self.paths = 0; self.checks = 0; self.viol = []; self.unexpl = 0; self.skipped = []


def check_op(w, op, drv, R=None, only_alias=None):
    """verify one implementation (driver entry) of op in every alias partition"""
    I = w.I; D = I.D
    R = R or Result()
    types = ([] if op.inout else [op.outs[0]]) + [t for t, r in op.ins]
    for pat in alias_patterns(1, types, op.noalias):
        if only_alias is not None and pat != only_alias:
            continue
        S = w.S.fork()
        D.asm = {}; D.facts = Facts()
        S.asm = {}; S.facts = D.facts
        objs = {}
        addrs = []
        polys = []
        for j, (t, b) in enumerate(zip(types, pat)):
            if b not in objs:
                objs[b] = S.new(tsz(t), "arg%d" % j)
            addrs.append(objs[b])
        first = 0 if op.inout else 1
        seen = {}
        for j, (t, r) in enumerate(op.ins):
            c, n = T[t]
            a = addrs[first + j]
            if a in seen:
                polys.append(seen[a])
                continue
            vs = []
            for q in range(c):
                lo, hi = I.RNG[r]
                v = w.inval("%s%d.%s%d.%d" % (op.name, j, t, n, q), lo, hi, n)
                I.wr(S, a + 8 * n * q, v)
                vs.append(v.p)
            polys.append(vs)
            seen[a] = vs
        if op.rel:
            for (q, lo, hi) in op.rel(*polys):
                D.facts = D.facts.derive(D.facts + [(q, lo, hi)])
            S.facts = D.facts
        where = "%s via %s, argument sharing %s" % (op.name, drv, "".join("ABCDE"[b] for b in pat))
        try:
            outs = w.R.call(S, drv, list(addrs))
        except Violation as e:
            e.where = where
            R.viol.append((e.kind, "%s: %s" % (where, e.msg), locstr(w.m, e.loc)))
            continue
        for T1 in outs:
            R.paths += 1
            D.asm = T1.asm; D.facts = T1.facts
            if T1.result[0] != "ret":
                R.viol.append(("noreturn", "%s: does not return (%s)" % (where, T1.result[1]), locstr(w.m, T1.frames_at_end[-1][1]) if getattr(T1, "frames_at_end", None) else "?"))
                continue
            env = D.asm
            exp = op.dfn.get(drv, op.fn)(*[[D.subst(q, env) for q in v] for v in polys])
            c, n = T[op.outs[0]]
            for q, o in enumerate(exp):
                try:
                    v = I.rd(T1, addrs[0] + 8 * n * q, n)
                except Violation as e:
                    R.viol.append((e.kind, "%s: result component %d: %s" % (where, q, e.msg), "?"))
                    break
                R.checks += 1
                bad = judge(I, T1, v, o)
                if bad:
                    R.viol.append(("value", "%s: result component %d %s" % (where, q, bad), pathstr(w, T1)))
                    break
            # inputs that are not outputs must be unchanged
            for j, (t, r) in enumerate(op.ins):
                a = addrs[first + j]
                if a == addrs[0]:
                    continue
                c, n = T[t]
                for q in range(c):
                    v = I.rd(T1, a + 8 * n * q, n)
                    d = D.subst(psub(v.p, polys[j][q]), D.asm)
                    if d and D.expand(d):
                        R.viol.append(("input", "%s: input %d is modified" % (where, j), "?"))
    return R


def check_best(w, op, drv):
    """check_op with increasingly eager naming of intermediate values; every
    strategy is sound, so the first one that proves the obligation decides"""
    first = None
    for eager in (False, True):
        w.I.eager = eager
        try:
            r = check_op(w, op, drv)
            r.err = None
        except AnalysisError as e:
            r = Result(); r.err = "AnalysisError: " + str(e); r.loc = getattr(e, "where", None)
        finally:
            w.I.eager = False
        if not r.viol and not r.err:
            return r
        if first is None:
            first = r
    return r if first.err and not r.err else first


def pathstr(w, S):
    return "; ".join("%s=%d at %s" % (w.I.D.atoms[a].name, v, locstr(w.m, l)) for a, v, l in S.path[-4:]) or "straight-line"


def judge(I, S, v, o):
    """None when value v satisfies expectation o, else a description"""
    D = I.D
    d = psub(v.p, o.poly)
    if D.asm:
        d = D.subst(d, D.asm)
    if o.exact:
        if d:
            d = D.expand(d)
        if d:
            l, h = D.rng2(d)
            if not (l == h == 0):
                return "differs from the specified integer by %s" % D.show(d, 6)
        return None
    r = I.ring(d, S)
    if r is None:
        e = D.expand(d)
        r = I.ring(e, S)
    if r is None:
        bad = [D.atoms[i].name for m, c in d.items() if c % I.p for i in m if D.atoms[i].kind not in ("in", "val", "fld")]
        return "is not congruent to the specified value (residual depends on %s)" % ", ".join(sorted(set(bad))[:4])
    if r:
        return "is not congruent to the specified value mod p"
    lo, hi = v.lo, v.hi
    if hi > o.hi or lo < 0:
        l, h = D.rng2(v.p)
        lo = max(lo, l); hi = min(hi, h)
    if lo < 0 or hi > o.hi:
        return "may leave its range: bound %s, inferred [%s, %s]" % (bits(o.hi), bits(lo), bits(hi))
    return None


def install(w, names, table):
    """install contracts for the named operations at their slots"""
    I = w.I
    for nm in names:
        op = table[nm]
        h = contract(I, op)
        if op.slot:
            a = slot_value(w, op.slot)
            n = w.m.fbyaddr.get(a)
            if n is not None:
                I.models[n] = h
            else:
                I.code.summ[a] = h
        else:
            pass


def slot_value(w, dem):
    a = w.S.gname(dem)
    v = w.S.ld(a, 8)
    if type(v) is not int or v == 0:
        raise Violation("slot", "function pointer %s has no defined value after initialisation" % dem)
    return v
