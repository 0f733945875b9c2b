"""Multi-word division of mie::Vuint through double approximations.

1. Approximation: the function that turns the two leading words into a double is
   interpreted for every position of the leading bit, rounding up and down; its
   result must satisfy APPROX (below) for all values of the words.
2. Quotient step: the division loop is interpreted from an arbitrary state at its
   head (any number of remaining words, any words), one turn: with APPROX in the
   place of 1 it must keep  q*Y + X  and make X smaller without a borrow or a carry.
3. Callers: the wrappers are interpreted with the result of 2 in the place of the loop.

APPROX(x[n], up): let V = the value of x / B^(n-1).  down: t <= V.
up: t >= V*(1+2^-53), or t is a power of two and t >= V.
Quotient: fl(xt/yt) <= X/Y in units of the window: if yt >= Y(1+2^-53), then the
exact xt/yt <= (X/Y)/(1+2^-53) and rounding adds at most a factor 1+2^-53; if yt is
a power of two the division is exact.  Scaling by a power of two is exact.
"""
import re
import spec
from dom import W, UNDEF, AnalysisError, pconst, padd, psub, pscale
from irx import Violation, PathEnd, Run, locstr
from scal import successors, stopfn
from vint import Env, pm, NW, M64

B = 1 << 64


class FD:
    """floating-point number: exact value p/2^s; or only its binary exponent (p None)"""
    __slots__ = ("p", "s", "e")

    def __init__(self, p, s, e=None):
        self.p = p; self.s = s; self.e = e


class App:
    """approximation of a stored number, times 2^k"""
    __slots__ = ("up", "ws", "k")

    def __init__(self, up, ws, k=0):
        self.up = up; self.ws = ws; self.k = k


class Quot:
    __slots__ = ("x", "y", "k")

    def __init__(self, x, y, k):
        self.x = x; self.y = y; self.k = k


def two(p):
    k = 400
    for c in p.values():
        k = min(k, (c & -c).bit_length() - 1)
    return k


class FP:
    def __init__(self, E):
        self.E = E; self.D = E.D

    def rng(self, p):
        D = self.D
        return D.rng(D.subst(p, D.asm))

    def cast(self, S, op, a, f, t, loc):
        D = self.D
        if op == "uitofp" and f == 64 and isinstance(a, W):
            p = D.subst(a.p, D.asm)
            l, h = D.rng(p)
            l = max(l, a.lo); h = min(h, a.hi)
            if h >> two(p) < 1 << 53:
                return FD(p, 0)
            n = h.bit_length()
            if l >> (n - 1):
                if l >= (1 << n) - (1 << (n - 54)):
                    return float(1 << n)
                if h < (1 << n) - (1 << (n - 54)):
                    return FD(None, 0, n - 1)
            raise AnalysisError("conversion to double not determined")
        if op == "fptoui" and t == 64 and isinstance(a, Quot):
            return self.quotient(S, a, loc)
        raise AnalysisError("floating-point %s of %s" % (op, type(a).__name__))

    def quotient(self, S, a, loc):
        D = self.D
        E = self.E
        nx, ny = len(a.x.ws), len(a.y.ws)
        sh = 64 * (nx - ny) - a.k
        if sh < 0 or sh % 64:
            raise Violation("value", "quotient digit is aligned at bit %d" % sh, loc)
        X = E.poly(a.x.ws); Y = E.poly(a.y.ws); p = sh // 64
        S.asm = D.asm; S.facts = D.facts
        if E.low(S, psub(pscale(Y, B << sh), X), 1) < 1:
            raise Violation("value", "the approximate quotient may exceed a word (conversion of an out-of-range double)", loc)
        q = D.atom("q%d" % len(D.atoms), 0, M64)
        t = {(q,): 1}
        win = E.poly(a.x.ws[p:])
        big = B ** nx
        D.facts = S.facts = spec.Facts(list(D.facts) + [(psub(X, pscale(pm(t, Y), 1 << sh)), 0, big - 1), (psub(win, pm(t, Y)), 0, B ** (nx - p) - 1)])
        S.user["quot"] = (t, p)
        return D.mk(t, 0, M64)

    def bin(self, S, op, a, b, loc):
        if op == "fmul":
            if isinstance(b, (App, Quot)):
                a, b = b, a
            if isinstance(a, Quot) and type(b) is float:
                return Quot(a.x, a.y, a.k + self.pow2(b))
            if isinstance(a, App) and type(b) is float:
                return App(a.up, a.ws, a.k + self.pow2(b))
        if op == "fdiv" and isinstance(a, App) and isinstance(b, App):
            if a.up or not b.up or b.k:
                raise Violation("value", "the quotient estimate does not round down (dividend rounded %s, divisor rounded %s)" % ("up" if a.up else "down", "up" if b.up else "down"), loc)
            return Quot(a, b, a.k)
        if op == "fadd":
            if isinstance(b, FD):
                a, b = b, a
            if isinstance(a, FD) and a.p is not None and type(b) is float:
                n, d = b.as_integer_ratio()
                s = max(a.s, d.bit_length() - 1)
                p = padd(pscale(a.p, 1 << (s - a.s)), pconst(n << (s - d.bit_length() + 1)))
                return self.exact(p, s)
        raise AnalysisError("floating-point %s of %s and %s" % (op, type(a).__name__, type(b).__name__))

    def pow2(self, f):
        n, d = f.as_integer_ratio()
        if n & (n - 1) or n <= 0:
            raise AnalysisError("scaling by %r" % f)
        return n.bit_length() - d.bit_length()

    def exact(self, p, s):
        D = self.D
        p = D.subst(p, D.asm)
        if not p or list(p) == [()]:
            return p.get((), 0) / (1 << s)
        l, h = D.rng(p)
        if l < 0 or (h >> two(p)) > 1 << 53:
            raise AnalysisError("sum of doubles may be rounded")
        return FD(p, s)

    def tobits(self, S, v):
        D = self.D
        if not isinstance(v, FD):
            if isinstance(v, W):
                return v
            raise AnalysisError("representation of %s" % type(v).__name__)
        if v.p is None:
            return D.mk(padd(pconst((v.e + 1023) << 52), {(D.atom("mant%d" % len(D.atoms), 0, (1 << 52) - 1),): 1}), (v.e + 1023) << 52, ((v.e + 1024) << 52) - 1)
        l, h = D.rng(D.subst(v.p, D.asm))
        n = h.bit_length()
        if l.bit_length() != n:
            raise AnalysisError("exponent of a double not determined")
        e = n - 1 - v.s
        k = 52 - (n - 1)
        p = v.p
        if k < 0:
            if two(p) < -k:
                raise AnalysisError("double has too many digits")
            p = {m: c >> -k for m, c in p.items()}
        else:
            p = pscale(p, 1 << k)
        base = (e + 1023) << 52
        return D.mk(padd(p, pconst(base - (1 << 52))), base, base + (1 << 52) - 1)

    def frombits(self, S, v):
        D = self.D
        p = D.subst(v.p, D.asm)
        l, h = D.rng(p)
        l = max(l, v.lo); h = min(h, v.hi)
        if l >> 52 != h >> 52 or not 0 < l >> 52 < 2047:
            raise AnalysisError("exponent of a double not determined")
        E = l >> 52
        p = psub(p, pconst((E << 52) - (1 << 52)))
        s = 1075 - E
        return FD(p, s) if s >= 0 else FD(pscale(p, 1 << -s), 0)


# ---------------------------------------------------------------- code shape
def callees(m, n):
    if n not in m.funcs:
        return []
    out = []
    for b in m.fj(n)["b"]:
        for i in b:
            if i[0] in ("call", "invoke") and type(i[4]) is list and i[4][0] == "F":
                out.append((i[4][1], i))
    return out


def reach(m, n):
    seen = []
    todo = [n]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.append(x)
        todo += [c for c, _ in callees(m, x)]
    return seen


def find(w):
    """(function with the division loop, approximation function, loop head)"""
    m = w.m
    names = [n for n in reach(m, "d_V_div") if n in m.funcs]
    has = {n for n in names if any(i[0] == "fdiv" for b in m.fj(n)["b"] for i in b)}
    if not has:
        raise AnalysisError("no division of doubles")
    loops = []
    for n in names:
        heads = loopheads(m, n, lambda i: i[0] == "fdiv" or i[0] in ("call", "invoke") and type(i[4]) is list and i[4][0] == "F" and has & set(reach(m, i[4][1])))
        if heads:
            loops.append((n, max(heads)[1]))
    # the innermost function with such a loop
    loops = [(n, h) for n, h in loops if not any(k != n and k in reach(m, n) for k, _ in loops)]
    if len(loops) != 1:
        raise AnalysisError("%d loops divide doubles, one expected" % len(loops))
    core, head = loops[0]
    app = [c for c in reach(m, core) if c in m.funcs and c != core and m.fj(c)["ret"] == "d"]
    app = [c for c in app if not any(k != c and c in reach(m, k) for k in app)]
    if len(app) != 1:
        raise AnalysisError("approximation function not found")
    return core, app[0], head


def loopheads(m, n, inside):
    """(size, head) of the loops of n with an instruction accepted by inside"""
    j = m.fj(n)["b"]
    n = len(j)
    succ = [successors(b) for b in j]
    fd = {i for i in range(n) if any(inside(x) for x in j[i])}
    if not fd:
        return []
    pred = [[p for p in range(n) if i in succ[p]] for i in range(n)]
    dom = {i: set(range(n)) for i in range(n)}
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for i in range(1, n):
            r = set.intersection(*[dom[p] for p in pred[i]]) | {i} if pred[i] else {i}
            if r != dom[i]:
                dom[i] = r; ch = True
    heads = []
    for i in range(n):
        for s in succ[i]:
            if s in dom[i]:
                body = {s, i}; st = [i]
                while st:
                    x = st.pop()
                    if x == s:
                        continue
                    for p in pred[x]:
                        if p not in body:
                            body.add(p); st.append(p)
                if fd & body:
                    heads.append((len(body), s))
    return heads


# ---------------------------------------------------------------- 1. approximation
def approx_cases():
    """(words H and L as polynomials over fresh atoms) for every leading bit and rounding situation"""
    for n in range(1, 65):
        if n <= 53:
            # H < 2^53 is exact; the mantissa is filled up from L
            r = 53 - n
            H = ("a", 1 << (n - 1), (1 << n) - 2); Hm = (1 << n) - 1
            low = 64 - r
            if n > 1:
                yield n, "", [("a", 1 << (n - 1), (1 << n) - 2, 0)], [("m", 0, (1 << r) - 1, low), ("l", 0, (1 << low) - 1, 0)] if r else [("l", 0, M64, 0)]
            if r:
                yield n, " (H all ones)", [Hm], [("m", 0, (1 << r) - 2, low), ("l", 0, (1 << low) - 1, 0)]
                yield n, " (all leading bits one)", [Hm], [((1 << r) - 1) << low, ("l", 0, (1 << low) - 1, 0)]
            else:
                yield n, " (all leading bits one)", [Hm], [("l", 0, M64, 0)]
        else:
            k = n - 53
            L = [("m", 0, M64, 0)]
            yield n, "", [("f", 1 << 52, (1 << 53) - 2, k), ("l", 0, (1 << k) - 1, 0)], L
            yield n, " (leading bits one, conversion rounds down)", [((1 << 53) - 1) << k, ("l", 0, (1 << (k - 1)) - 1, 0)], L
            # the converted number is 2^n: one bit less is kept
            yield n, " (leading bits one, conversion rounds up)", [((1 << 52) - 1) << (k + 1), ("l", (1 << k) + (1 << (k - 1)), (1 << (k + 1)) - 1, 0)], L


def build(E, parts):
    D = E.D
    p = {}; l = h = 0
    for x in parts:
        if type(x) is int:
            p = padd(p, pconst(x)); l += x; h += x
        else:
            i = D.atom(x[0], x[1], x[2])
            p = padd(p, pscale({(i,): 1}, 1 << x[3])); l += x[1] << x[3]; h += x[2] << x[3]
    if not p or list(p) == [()]:
        return l
    return D.mk(p, l, h)


def approx(E, r, app, xs=(2, 3)):
    w = E.w; D = E.D; m = w.m
    E.I.fp = FP(E)
    loc = m.fj(app)["loc"]
    where = locstr(m, (loc[0] << 20) | loc[1])
    for up in (0, 1):
        for xn in xs:
            for n, note, hp, lp in approx_cases():
                S = E.start()
                H = build(E, hp); L = build(E, lp)
                arr = S.new(8 * xn, "x")
                for i in range(xn - 2):
                    S.st(arr + 8 * i, 8, E.word("low%d" % i))
                S.st(arr + 8 * (xn - 2), 8, L); S.st(arr + 8 * (xn - 1), 8, H)
                P = lambda v: v.p if isinstance(v, W) else pconst(v)
                V = padd(pscale(P(H), B), P(L))      # the value times B, without the words below
                what = "approximation rounding %s of %d words, leading word of %d bits%s" % ("up" if up else "down", xn, n, note)
                r.obl += 1
                try:
                    for T in w.R.call(S, app, [arr, xn, up]):
                        if T.result[0] == "end" and T.result[1] == "infeasible":
                            continue
                        r.paths += 1
                        D.asm = T.asm; D.facts = T.facts
                        v = T.result[1] if T.result[0] == "ret" else None
                        if type(v) is float:
                            a, d = v.as_integer_ratio()
                            p, s = pconst(a), d.bit_length() - 1
                            pow2 = a & (a - 1) == 0
                        elif isinstance(v, FD) and v.p is not None:
                            p, s, pow2 = v.p, v.s, False
                        else:
                            raise Violation("value", "no number is returned")
                        if not up:
                            ok = E.low(T, psub(pscale(V, 1 << s), pscale(p, B))) >= 0
                        else:
                            V1 = padd(V, pconst(1))
                            ok = E.low(T, psub(pscale(p, B << 53), pscale(V1, ((1 << 53) + 1) << s))) >= 0
                            ok = ok or (pow2 and E.low(T, psub(pscale(p, B), pscale(V1, 1 << s))) >= 0)
                        if not ok:
                            raise Violation("value", "the result is not a %s bound" % ("strict upper" if up else "lower"))
                    r.dis += 1
                except Violation as e:
                    r.viol.append((e.kind, "%s: %s" % (what, e.msg), locstr(m, e.loc) if e.loc else where))
                    if len(r.viol) > 3:
                        return


# ---------------------------------------------------------------- 2. loop
def model_app(E):
    def f(S, args, loc):
        D = E.D
        x, n, up = args
        if type(n) is not int or type(up) is not int or n < 2:
            raise Violation("value", "approximation of fewer than two words", loc)
        ws = [S.ld(x + 8 * i, 8) for i in range(n)]
        for v in ws:
            if v is UNDEF:
                raise Violation("undef", "approximation of a number with undefined words", loc)
        S.asm = D.asm; S.facts = D.facts
        if not E.positive(S, ws[-1]):
            raise Violation("value", "approximation of a number whose leading word may be zero", loc)
        return App(bool(up & 1), ws)
    return f


def run_to(E, S, depth, fn=None):
    """run the partitions until the stop point or the end of the function"""
    I = E.I; D = E.D; R = E.w.R
    work = [S]; out = []
    n = 0
    while work:
        s = work.pop(); n += 1
        if n > 4000:
            raise AnalysisError("too many partitions")
        D.asm = s.asm; D.facts = s.facts
        try:
            x = R.run(s, depth, work)
        except PathEnd as e:
            if e.what == "infeasible":
                continue
            s.result = ("end", e.what, e.data); x = s
        if x is not None:
            x.asm = D.asm; x.facts = D.facts
            out.append(x)
    return out


class Loop:
    def __init__(self, E, core, app, head):
        self.E = E; self.core = core; self.head = head
        self.fn = E.I.compile(core)
        E.I.models[app] = model_app(E)
        E.I.fp = FP(E)
        self.stop = self.fn.bstart[head]
        self.sf = stopfn(self.fn, self.stop)
        self.again = len(self.sf.segs)
        self.sf.segs.append(self.fn.segs[self.stop])
        E.w.R.forker = E.decide
        self.phis = [i[1] for i in E.w.m.fj(core)["b"][head] if i[0] == "phi"]

    def enter(self, xn, yn, hasq):
        """state at the loop head right after the prologue"""
        E = self.E; w = E.w
        S = E.start()
        xs = E.words("x", xn); ys = E.words("y", yn)
        X = S.new(8 * xn, "x"); Y = S.new(8 * yn, "y"); Q = S.new(8 * (xn - yn + 1), "q") if hasq else 0
        for i, v in enumerate(xs):
            S.st(X + 8 * i, 8, v)
        for i, v in enumerate(ys):
            S.st(Y + 8 * i, 8, v)
        w.R.push(S, self.core, [Q, X, xn, Y, yn], -1, -1, 0)
        S.frames[-1].fn = self.sf
        depth = len(S.frames)
        out = run_to(E, S, depth - 1)
        if len(out) != 1 or out[0].result != ("m",):
            raise AnalysisError("the division loop is not reached on a single path")
        T = out[0]
        if hasq:
            for i in range(xn - yn + 1):
                if T.ld(Q + 8 * i, 8) != 0:
                    raise Violation("value", "quotient words are not cleared")
        return T, xs, ys, X, Y, Q, depth

    def sig(self, T, bases):
        out = []
        for r in self.phis:
            v = T.frames[-1].R[r]
            for k, (a, n) in enumerate(bases):
                if type(v) is int and a and a <= v <= a + n:
                    v = (k, v - a)
                    break
            out.append(v)
        return tuple(out)

    def check(self, r, xn, yn, hasq):
        E = self.E; D = E.D; m = E.w.m
        what = "division loop with %d remaining words, %d divisor words%s" % (xn, yn, "" if hasq else ", no quotient")
        r.obl += 1
        try:
            sigs = {}
            for x2 in range(yn, xn + 1):
                T, xs, ys, X, Y, Q, depth = self.enter(x2, yn, hasq)
                sigs[self.sig(T, ((X, 8 * x2), (Y, 8 * yn), (Q, 8 * (x2 - yn + 1))))] = x2
            H = T
            g = []
            if hasq:
                for i in range(xn - yn + 1):
                    v = 0
                    if i >= xn - yn - 1:
                        v = E.word("g%d" % i)
                    g.append(v)
                    H.st(Q + 8 * i, 8, v)
            H.frames[-1].seg = self.again
            H.result = None
            H.user.pop("quot", None)
            PX = E.poly(xs); PY = E.poly(ys)
            for T in run_to(E, H, depth - 1):
                r.paths += 1
                D.asm = T.asm; D.facts = T.facts
                if T.result[0] == "m":
                    sg = self.sig(T, ((X, 8 * xn), (Y, 8 * yn), (Q, 8 * (xn - yn + 1))))
                    x2 = sigs.get(sg)
                    self.step(T, x2, xs, ys, X, Q, g, hasq)
                    low = x2 == yn and not E.positive(T, T.ld(X + 8 * (yn - 1), 8))
                    if x2 is None or low:
                        # fewer words than the divisor: the loop must end here
                        T.frames[-1].seg = self.again; T.result = None
                        for i in range(yn - 1):
                            T.st(X + 8 * i, 8, E.word("n%d" % i))      # any remainder
                        if low:
                            T.st(X + 8 * (yn - 1), 8, 0)
                        for U in run_to(E, T, depth - 1):
                            D.asm = U.asm; D.facts = U.facts
                            if U.result[0] != "ret":
                                raise Violation("value", "the loop goes on with fewer words than the divisor has")
                            nx = E.poly([U.ld(X + 8 * i, 8) for i in range(xn)])
                            if E.low(U, psub(PY, nx), 1) < 1:
                                raise Violation("value", "the loop ends with a remainder that is not below the divisor")
                elif T.result[0] == "ret":
                    nx = E.poly([T.ld(X + 8 * i, 8) for i in range(xn)])
                    if not E.same(T, nx, PX):
                        raise Violation("value", "the number is changed by the last test")
                    if E.low(T, psub(PY, nx), 1) < 1:
                        raise Violation("value", "the loop ends with a remainder that is not below the divisor")
                else:
                    raise Violation("noreturn", "does not return (%s)" % (T.result[1],))
            r.dis += 1
        except Violation as e:
            loc = m.fj(self.core)["loc"]
            r.viol.append((e.kind, "%s: %s" % (what, e.msg), locstr(m, e.loc or ((loc[0] << 20) | loc[1]))))

    def step(self, T, x2, xs, ys, X, Q, g, hasq):
        E = self.E; D = E.D
        xn, yn = len(xs), len(ys)
        PX = E.poly(xs); PY = E.poly(ys)
        nw = [T.ld(X + 8 * i, 8) for i in range(xn)]
        if any(v is UNDEF for v in nw):
            raise Violation("undef", "undefined word in the remainder")
        NX = E.poly(nw)
        q = T.user.get("quot")
        if q is None:
            raise Violation("value", "a turn of the loop does not compute a quotient digit")
        # which multiple of the divisor was subtracted?
        ok = None
        for p in range(0, xn - yn + 1):
            for t in (q[0], pconst(1)):
                if E.same(T, psub(PX, NX), pscale(pm(t, PY), B ** p)):
                    ok = (p, t)
                    break
            if ok:
                break
        if ok is None:
            raise Violation("value", "the remainder does not decrease by a multiple of the divisor (borrow out of the window)")
        p, t = ok
        D.asm = T.asm; D.facts = T.facts
        if E.low(T, t, 1) < 1:
            raise Violation("value", "the quotient digit may be zero: the loop may not terminate")
        # quotient() has shown X < Y B^(position + 1)
        if p != q[1]:
            raise Violation("value", "the quotient digit is not taken at the leading position")
        if hasq:
            for i in range(xn - yn + 1):
                v = T.ld(Q + 8 * i, 8)
                if v is UNDEF:
                    raise Violation("undef", "undefined quotient word")
                P = lambda z: z.p if isinstance(z, W) else pconst(z)
                if i != p:
                    if not E.same(T, P(v), P(g[i])):
                        raise Violation("value", "another quotient word is changed")
                    continue
                d = D.subst(psub(P(v), padd(P(g[i]), t)), T.asm)
                # (g + t) Y B^p + X' < Y B^(p+1) by the invariant: the sum fits a word
                if d and not all(c % B == 0 for c in d.values()):
                    raise Violation("value", "the digit is not added to its quotient word")
        n2 = x2 if x2 is not None else yn - 1
        for i in range(n2, xn):
            v = nw[i]
            if not (v == 0 if type(v) is int else E.same(T, v.p, {})):
                raise Violation("value", "non-zero word %d above the %d remaining words: %r" % (i, n2, v))
        if x2 is not None and x2 > yn and not E.positive(T, nw[x2 - 1]):
            raise Violation("value", "leading word of the remaining words may be zero")


# ---------------------------------------------------------------- 3. callers
def model_core(E):
    def f(S, args, loc):
        D = E.D
        q, x, xn, y, yn = args
        if not (type(xn) is int and type(yn) is int and xn >= yn >= 2):
            raise Violation("value", "division of %s by %s words" % (xn, yn), loc)
        S.asm = D.asm; S.facts = D.facts
        xs = [S.ld(x + 8 * i, 8, loc) for i in range(xn)]; ys = [S.ld(y + 8 * i, 8, loc) for i in range(yn)]
        if any(v is UNDEF for v in xs + ys):
            raise Violation("undef", "division of undefined words", loc)
        if not E.positive(S, xs[-1]) or not E.positive(S, ys[-1]):
            raise Violation("value", "division of a number whose leading word may be zero", loc)
        reg = [(x, 8 * xn), (y, 8 * yn)] + ([(q, 8 * (xn - yn + 1))] if q else [])
        for i, (a, n) in enumerate(reg):
            for b, k in reg[:i]:
                if a < b + k and b < a + n:
                    raise Violation("value", "operands of the division share storage", loc)
        X = E.poly(xs); Y = E.poly(ys)
        qs = [E.word("Q%d_%d" % (i, len(D.atoms))) for i in range(xn - yn + 1)]
        R = psub(X, pm(E.poly(qs), Y))
        big = D.rng(Y)[1]
        rs = [E.word("r%d_%d" % (i, len(D.atoms))) for i in range(yn)]
        d = D.subst(X, D.asm)
        x0 = next((m for m, c in d.items() if len(m) == 1 and c == 1 and D.atoms[m[0]].kind == "in" and sum(m[0] in k for k in d) == 1), None)
        if x0 is not None and not any(x0[0] in k for v in D.asm.values() for k in v) and not any(x0[0] in k for k in D.subst(Y, D.asm)):
            # every word of the remainder is free; the lowest word of the dividend is what it must be
            v = padd(pm(E.poly(qs), Y), E.poly(rs))
            v = psub(D.subst(v, D.asm), {k: c for k, c in d.items() if k != x0})
            a = D.atoms[x0[0]]
            S.asm = D.asm = dict(D.asm)
            D.asm[x0[0]] = v
            R = E.poly(rs)
            D.facts = S.facts = spec.Facts([(D.subst(f[0], {x0[0]: v}), f[1], f[2]) for f in D.facts] + [(v, a.lo, a.hi), (psub(psub(Y, pconst(1)), R), 0, big - 1)])
        else:
            r0 = R
            for i in range(1, yn):
                r0 = psub(r0, pscale(rs[i].p, B ** i))
            D.facts = S.facts = spec.Facts(list(D.facts) + [(R, 0, big - 1), (psub(psub(Y, pconst(1)), R), 0, big - 1), (r0, 0, M64)])
            rs[0] = D.mk(r0, 0, M64)
        for i in range(xn):
            S.st(x + 8 * i, 8, rs[i] if i < yn else 0, loc)
        if q:
            for i, v in enumerate(qs):
                S.st(q + 8 * i, 8, v, loc)
        return 0
    return f
