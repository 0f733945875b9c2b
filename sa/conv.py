"""Conversions between integers and field elements (Fp::set, get, getLow, ...).

The Montgomery product is used through its contract: for operands with integer
values X, Y below p it returns four words with integer value below p congruent to
X*Y/R (a property of its own).  Everything else - limb copies, multi-precision
product and reduction, sign handling - is analysed."""
import spec, vint, vdiv
from dom import W, UNDEF, AnalysisError, pconst, psub, padd, pscale
from irx import Violation, locstr
B = 1 << 64


def model_mul(E, p, log):
    D = E.D

    def f(S, args, loc):
        S.asm = D.asm; S.facts = D.facts
        ps = []
        for a in args[1:3]:
            ws = [S.ld(a + 8 * i, 8, loc) for i in range(4)]
            if any(v is UNDEF for v in ws):
                raise Violation("undef", "product of undefined words", loc)
            q = E.poly(ws)
            if not vint.inrange(E, S, q, 0, p - 1) and not canonical(E, S, ws, p):
                raise Violation("range", "operand of Fp::mul is not a canonical residue", loc)
            ps.append(q)
        ws = fresh(E, S, "m%d_" % len(D.atoms), p)
        for i, v in enumerate(ws):
            S.st(args[0] + 8 * i, 8, v, loc)
        S.user = dict(S.user)
        S.user["mul"] = S.user.get("mul", ()) + ((tuple(ws), ps[0], ps[1]),)
        return None
    return f


def model_neg(E, p):
    D = E.D

    def f(S, args, loc):
        S.asm = D.asm; S.facts = D.facts
        ws = [S.ld(args[1] + 8 * i, 8, loc) for i in range(4)]
        if not canonical(E, S, ws, p):
            raise Violation("range", "operand of Fp::neg is not a canonical residue", loc)
        out = fresh(E, S, "n%d_" % len(D.atoms), p)
        for i, v in enumerate(out):
            S.st(args[0] + 8 * i, 8, v, loc)
        S.user = dict(S.user)
        S.user["neg"] = S.user.get("neg", ()) + ((tuple(out), E.poly(ws)),)
        return None
    return f


def fresh(E, S, name, p):
    """four words of an integer below p"""
    D = E.D
    ws = [E.word("%s%d" % (name, i), 0, B - 1 if i < 3 else p >> 192) for i in range(4)]
    S.asm = D.asm
    D.facts = S.facts = spec.Facts(list(D.facts) + [(E.poly(ws), 0, p - 1)])
    return ws


def canonical(E, S, ws, p):
    q = E.poly(ws)
    if not any(isinstance(v, W) for v in ws):
        return 0 <= q.get((), 0) < p
    for f, l, h in S.facts:
        if f == q and l >= 0 and h < p:
            return True
    l, h = E.D.rng(q)
    return 0 <= l and h < p or vint.inrange(E, S, q, 0, p - 1)


def residue(E, T, q, p, R):
    """the residue mod p (as a polynomial in the inputs, Montgomery factor included)
    of an integer polynomial q built from results of the contracts"""
    D = E.D
    Ri = pow(R, -1, p)
    q = D.subst(q, T.asm) if T.asm else q
    for _ in range(20):
        done = True
        for ws, X, Y in T.user.get("mul", ()):
            a = lead(E, T, q, ws)
            if a is not None:
                q = padd(psub(q, pscale(E.poly(ws), a)), pscale(vint.pm(X, Y), a * Ri)); done = False
                q = modp(D.subst(q, T.asm) if T.asm else q, p)
        for ws, X in T.user.get("neg", ()):
            a = lead(E, T, q, ws)
            if a is not None:
                q = psub(psub(q, pscale(E.poly(ws), a)), pscale(X, a)); done = False
                q = modp(D.subst(q, T.asm) if T.asm else q, p)
        if done:
            return modp(q, p)
    return modp(q, p)


def modp(q, p):
    return {m: c % p for m, c in q.items() if c % p}


def lead(E, T, q, ws):
    """the multiplier of the value with words ws in q, None when it does not occur"""
    for i in range(4):
        v = ws[i]
        if isinstance(v, W):
            (m, c), = v.p.items()
            if m[0] in T.asm:
                continue
            if m in q:
                return q[m] * pow(B, -i, E.I.p) % E.I.p
    return None


class Conv:
    def __init__(self, w, r, cfg):
        self.w = w; self.r = r; self.cfg = cfg
        self.E = vint.Env(w)
        self.E.I.fldc.clear()
        self.p = w.I.p
        self.R = 1 << 256
        tb = spec.ops(w.I, cfg[0] == "s")
        for n, h in (("Fp::mul", model_mul(self.E, self.p, None)), ("Fp::neg", model_neg(self.E, self.p))):
            a = spec.slot_value(w, tb[n].slot)
            f = w.m.fbyaddr.get(a)
            if f is not None:
                w.I.models[f] = h
            else:
                w.I.code.summ[a] = h
        core = vdiv.find(w)[0]
        w.I.models[core] = vdiv.model_core(self.E)

    def fp(self, S, name="x"):
        """an arbitrary canonical field element"""
        ws = fresh(self.E, S, name, self.p)
        a = S.new(32, "Fp")
        for i, v in enumerate(ws):
            S.st(a + 8 * i, 8, v)
        return a, ws, self.E.poly(ws)

    def out(self, T, a):
        return [T.ld(a + 8 * i, 8, 0) for i in range(4)]

    def call(self, what, drv, S, args, judge):
        r = self.r; E = self.E
        if drv not in self.w.m.funcs:
            r.skip = "no such function in this tree"
            return
        r.obl += 1
        try:
            for T in self.w.R.call(S, drv, args):
                if T.result[0] == "end" and T.result[1] == "infeasible":
                    continue
                E.D.asm = T.asm; E.D.facts = T.facts
                r.paths += 1
                if T.result[0] != "ret":
                    if E.empty(T):
                        continue
                    raise Violation("noreturn", "does not return (%s)" % (T.result[1],), T.frames_at_end[-1][1] if getattr(T, "frames_at_end", None) else 0)
                m = judge(T, T.result[1] if len(T.result) > 1 else None)
                if m and not E.empty(T):
                    raise Violation("value", m)
            r.dis += 1
        except Violation as e:
            r.viol.append((e.kind, "[%s] %s: %s" % (self.cfg, what, e.msg), locstr(self.w.m, e.loc) if e.loc else "include/zm2.h: Fp"))

    def isfp(self, T, a, want):
        """the object at a is the canonical residue of want*R"""
        ws = self.out(T, a)
        if any(v is UNDEF for v in ws):
            return "a word of the result is not set"
        if not canonical(self.E, T, ws, self.p):
            return "the result is not a canonical residue"
        d = psub(residue(self.E, T, self.E.poly(ws), self.p, self.R), pscale(want, self.R % self.p))
        d = modp(self.E.D.subst(d, T.asm), self.p)
        return None if not d else "the result is not the element for the given integer"

    # ------------------------------------------------------------ functions
    def setint(self):
        E = self.E
        for drv in ("d_Fp_setint", "d_Fp_ctorint"):
            for lo, hi in ((0, 0), (1, 1), (2, (1 << 31) - 1), (-(1 << 31), -(1 << 31)), (1 - (1 << 31), -1)):
                S = E.start()
                a = S.new(32, "Fp")
                if lo == hi:
                    v = lo % (1 << 32); p = pconst(lo)
                else:
                    v = E.word("k", lo % (1 << 32), hi % (1 << 32)); p = v.p if lo > 0 else psub(v.p, pconst(1 << 32))
                self.call("%s from an int in [%d, %d]" % (drv[2:], lo, hi), drv, S, [a, v], lambda T, r: self.isfp(T, a, p))

    def setvuint(self):
        E = self.E
        for drv in ("d_Fp_setVuint", "d_Fp_ctorVuint"):
            for n in (1, 2, 3, 4):
                S = E.start()
                ws = E.words("x", n)
                S, b = E.vuint(S, ws)
                a = S.new(32, "Fp")
                X = E.poly(ws)
                if n == 4:
                    E.D.facts = S.facts = spec.Facts(list(S.facts) + [(X, 0, self.p - 1)])
                def j(T, r):
                    T2 = T.fork(); T2.frames = []
                    if not E.same(T2, E.poly(E.get(T2, b)), X):
                        return "the operand is modified"
                    return self.isfp(T, a, X)
                self.call("%s from a %d-word integer below p" % (drv[2:], n), drv, S, [a, b], j)

    def get(self):
        E = self.E
        S = E.start()
        a, ws, X = self.fp(S)
        S, z = E.vuint(S, [1])

        def j(T, r):
            T2 = T.fork(); T2.frames = []
            got = E.get(T2, z)
            return self.isint(T, E.poly(got), X) or self.kept(T, a, X)
        self.call("Fp::get", "d_Fp_get", S, [z, a], j)
        for drv, m in (("d_Fp_getLow", B), ("d_Fp_isOdd", 2)):
            S = E.start()
            a, ws, X = self.fp(S)

            def j2(T, r):
                for mw, P, Q in T.user.get("mul", ()):
                    if self.isint(T, E.poly(mw), X):
                        continue
                    want = mw[0] if m == B else E.D.low(mw[0], 1)
                    q = r.p if isinstance(r, W) else pconst(r)
                    q = psub(q, want.p if isinstance(want, W) else pconst(want))
                    return None if not q or E.same(T, q, {}) else "differs from the low %s of the integer" % ("word" if m == B else "bit")
                return "is not computed from the integer"
            self.call(drv[2:], drv, S, [a], j2)

    def isint(self, T, q, X):
        """the integer polynomial q is the canonical integer x with x*R == X"""
        E = self.E
        for mw, P, Q in T.user.get("mul", ()):
            if E.same(T, q, E.poly(mw)):
                d = modp(E.D.subst(psub(residue(E, T, E.poly(mw), self.p, self.R), pscale(X, pow(self.R, -1, self.p))), T.asm), self.p)
                return None if not d else "is not the integer the element stands for"
        if not q:
            return None if E.empty(T) else "zero"
        return "is not the reduced integer"

    def kept(self, T, a, X):
        ws = self.out(T, a)
        return None if all(v is not UNDEF for v in ws) and self.E.same(T, self.E.poly(ws), X) else "the operand is modified"

    def misc(self):
        E = self.E; p = self.p
        # Montgomery form and back
        for drv, k in (("d_Fp_toMont", self.R), ("d_Fp_fromMont", pow(self.R, -1, p))):
            for share in (False, True):
                S = E.start()
                a, ws, X = self.fp(S)
                b = a if share else S.new(32, "Fp")

                def j(T, r):
                    o = self.out(T, b)
                    if any(v is UNDEF for v in o) or not canonical(E, T, o, p):
                        return "the result is not a canonical residue"
                    d = modp(E.D.subst(psub(residue(E, T, E.poly(o), p, self.R), pscale(X, k % p)), T.asm), p)
                    return "wrong residue" if d else None if share else self.kept(T, a, X)
                self.call(drv[2:] + (", shared" if share else ""), drv, S, [b, a], j)
        # words taken over as they are
        S = E.start()
        a = S.new(32, "Fp"); b = S.new(32, "words")
        ws = [E.word("w%d" % i) for i in range(4)]
        for i, v in enumerate(ws):
            S.st(b + 8 * i, 8, v)
        self.call("Fp(const Unit*)", "d_Fp_ctorw", S, [a, b], lambda T, r: self.exact(T, a, 4, E.poly(ws)))
        for drv, k, nm in (("d_Fp_setDirect", 4, "Fp"), ("d_FpD_setDirect", 8, "FpDbl")):
            for n in range(1, 10):
                S = E.start()
                ws = E.words("x", n)
                S, b = E.vuint(S, ws)
                a = S.new(8 * k, nm)
                self.call("%s::setDirect from %d words" % (nm, n), drv, S, [a, b], lambda T, r: self.exact(T, a, k, E.poly(ws[:k])))
        S = E.start()
        ws = [E.word("w%d" % i) for i in range(8)]
        a = S.new(64, "FpDbl")
        for i, v in enumerate(ws):
            S.st(a + 8 * i, 8, v)
        z = S.new(E.szV, "Vuint")

        def j(T, r):
            T2 = T.fork(); T2.frames = []
            return None if E.same(T2, E.poly(E.get(T2, z)), E.poly(ws)) else "is not the stored integer"
        self.call("FpDbl::getDirect", "d_FpD_getDirect", S, [z, a], j)
        S = E.start()
        z = S.new(E.szV, "Vuint")

        def j(T, r):
            T2 = T.fork(); T2.frames = []
            return None if E.poly(E.get(T2, z)) == pconst(p) else "is not the modulus"
        self.call("Fp::getModulo", "d_Fp_getModulo", S, [z], j)
        for n in [k for k in range(7) if k * p < self.R]:
            S = E.start()
            self.call("Fp::getDirectP(%d)" % n, "d_Fp_getDirectP", S, [n], lambda T, r: self.exact(T, r, 4, pconst(n * p)))
        # several elements at once
        for drv, n, vs in (("d_Fp2_ctorii", 2, ((None, None), (0, None), (None, 1), (1, 0))), ("d_Fp2_ctori", 2, ((None,), (0,), (1,))), ("d_Fp12_ctori", 12, ((None,), (0,), (1,)))):
            for v in vs:
                S = E.start()
                a = S.new(32 * n, "element")
                args = [E.word("k%d" % i, 2, (1 << 31) - 1) if x is None else x for i, x in enumerate(v)]
                ps = [x.p if isinstance(x, W) else pconst(x) for x in args] + [{}] * n

                def j(T, r):
                    for q in range(n):
                        m = self.isfp(T, a + 32 * q, ps[q])
                        if m:
                            return "component %d: %s" % (q, m)
                self.call("%s(%s)" % (drv[2:], ", ".join("int" if x is None else str(x) for x in v)), drv, S, [a] + args, j)

    def exact(self, T, a, n, want):
        E = self.E
        if type(a) is not int:
            return "the result pointer is not determined"
        ws = [T.ld(a + 8 * i, 8, 0) for i in range(n)]
        if any(v is UNDEF for v in ws):
            return "a word is not set"
        return None if E.same(T, E.poly(ws), want) else "the words differ from the specified integer"

    def order(self):
        E = self.E
        for nm, kinds, k in (("d_Fp_", ("compare", "lt", "le", "gt", "ge", "eq", "ne"), 4), ("d_FpD_", ("compare",), 8)):
            for kd in kinds:
                S = E.start()
                ad = []; P = {}
                for q in range(2):
                    ws = [E.word("xy"[q] + str(i)) for i in range(k)]
                    a = S.new(8 * k, "operand")
                    for i, v in enumerate(ws):
                        S.st(a + 8 * i, 8, v)
                    ad.append(a); P[q] = E.poly(ws)
                f = vint.relret("cmp" if kd == "compare" else kd)
                self.call("%s, two objects" % (nm + kd)[2:], nm + kd, S, ad, lambda T, r: f(E, T, P, r))
                S = E.start()
                ws = [E.word("x" + str(i)) for i in range(k)]
                a = S.new(8 * k, "operand")
                for i, v in enumerate(ws):
                    S.st(a + 8 * i, 8, v)
                P2 = {0: E.poly(ws), 1: E.poly(ws)}
                self.call("%s, one object" % (nm + kd)[2:], nm + kd, S, [a, a], lambda T, r: f(E, T, P2, r))
