"""Multi-precision integers (mie::Vuint, mie::Vsint): every operation is
interpreted for every pair of word counts with all words unknown."""
import spec
from dom import W, UNDEF, AnalysisError, pconst, padd, psub, pscale
from irx import Violation, locstr, sgn

NW = 9
M64 = (1 << 64) - 1


class Env:
    def __init__(self, w):
        self.w = w; self.I = w.I; self.D = w.I.D; self.narrow = {}
        w.I.l3 = False
        w.I.code.div_hook = divhook(self)
        w.R.forker = self.decide

    def start(self):
        I = self.I; D = self.D
        S = self.w.S.fork()
        D.asm = {}; D.facts = spec.Facts()
        S.asm = {}; S.facts = D.facts; S.user = dict(S.user)
        return S

    def sizeof(self, t):
        return self.w.call1(self.w.S.fork(), "d_sizeof_" + t, []).result[1]

    def run1(self, S, f, a):
        T = self.w.call1(S, f, a)
        if T.result[0] != "ret":
            raise Violation("noreturn", "%s does not return" % f)
        T.frames = []
        return T

    def word(self, name, lo=0, hi=M64):
        D = self.D
        return D.mk({(D.atom(name, lo, hi),): 1}, lo, hi)

    def words(self, name, n):
        """n words, the most significant one non-zero"""
        return [self.word("%s%d" % (name, i), 1 if i == n - 1 else 0) for i in range(n)]

    def poly(self, ws):
        p = {}
        for i, x in enumerate(ws):
            p = padd(p, pscale(x.p, 1 << (64 * i)) if isinstance(x, W) else pconst(x << (64 * i)))
        return p

    def vuint(self, S, ws, at=None):
        arr = S.new(max(8, 8 * len(ws)), "limbs")
        for i, x in enumerate(ws):
            S.st(arr + 8 * i, 8, x)
        a = at or S.new(self.szV, "Vuint")
        S = self.run1(S, "d_V_setw", [a, arr, len(ws)])
        S.mem.pop(arr >> 20, None)
        return S, a

    @property
    def szV(self):
        if not hasattr(self, "_szV"):
            self._szV = self.sizeof("Vuint")
        return self._szV

    @property
    def szS(self):
        if not hasattr(self, "_szS"):
            self._szS = self.sizeof("Vsint")
        return self._szS

    def get(self, S, a):
        """words stored in the Vuint at a"""
        T = S.fork(); T.frames = []
        n = self.run1(T, "d_V_size", [a]).result[1]
        if type(n) is not int:
            raise Violation("value", "size is not determined")
        if n < 1 or n > NW:
            raise Violation("value", "size %d is outside 1..%d" % (n, NW))
        p = self.run1(S.fork(), "d_V_ptr", [a]).result[1]
        ws = [S.ld(p + 8 * i, 8) for i in range(n)]
        for x in ws:
            if x is UNDEF or not (type(x) is int or isinstance(x, W)):
                raise Violation("undef", "a word of the result is not initialised")
        if n > 1 and not self.positive(S, ws[-1]):
            raise Violation("value", "the most significant word of the result may be zero (size %d)" % n)
        return ws

    def positive(self, S, x):
        if type(x) is int:
            return x > 0
        D = self.D
        D.asm = S.asm; D.facts = S.facts
        if max(x.lo, D.rng(D.subst(x.p, S.asm))[0]) >= 1:
            return True
        if D.rng2(D.subst(x.p, S.asm))[0] >= 1:
            return True
        b = self.fbound(S, D.subst(x.p, S.asm))
        return b is not None and b[0] >= 1

    def same(self, S, p, q):
        """p == q in state S"""
        D = self.D
        D.asm = S.asm; D.facts = S.facts
        d = D.subst(psub(p, q), S.asm)
        if not d:
            return True
        d = D.subst(D.expand(d), S.asm)
        if not d:
            return True
        if D.rng(d) == (0, 0) or self.fbound(S, d) == (0, 0):
            return True
        env = self.tight(S, d)
        if env is None:
            return True         # no values of the words satisfy the path
        if env:
            d = D.subst(d, env)
            if not d:
                return True
        l, h = D.rng(d)
        return l == h == 0 or self.fbound(S, d) == (0, 0)

    def fbound(self, S, p):
        """range of rest +- floor(N/M) through the range of N +- M*rest"""
        D = self.D
        for m, c in p.items():
            if len(m) == 1 and c in (1, -1) and D.atoms[m[0]].kind == "floor":
                N, M, sg = D.atoms[m[0]].defn
                k = c * sg
                rest = {x: v for x, v in p.items() if x != m}
                Z = padd(D.subst(N, S.asm), pscale(rest, M * k))
                l, h = D.rng(Z)
                l, h = l // M, h // M
                if k < 0:
                    l, h = -h, -l
                if h - l <= 1:
                    return l, h
        return None

    def tight(self, S, d=()):
        """atoms with only one possible value: interval propagation over the
        linear facts of the path, then re-evaluation of the quotients in d"""
        D = self.D
        env = {}
        todo = {i for m in d for i in m}
        for _ in range(4):
            n0 = len(env)
            for f in S.facts:
                q = D.subst(D.subst(f[0], S.asm), env)
                if any(len(m) > 1 for m in q):
                    continue
                l, h = D.naive(q)
                if l > f[2] or h < f[1]:
                    return None
                for m, c in q.items():
                    if not m or m[0] in env:
                        continue
                    a = D.atoms[m[0]]
                    x, y = (a.lo * c, a.hi * c) if c > 0 else (a.hi * c, a.lo * c)
                    # c*atom = q - rest
                    bl, bh = f[1] - (h - y), f[2] - (l - x)
                    if c > 0:
                        lo, hi = -(-bl // c), bh // c
                    else:
                        lo, hi = -(bh // -c), -bl // -c
                    lo = max(lo, a.lo); hi = min(hi, a.hi)
                    if lo > hi:
                        return None
                    if lo == hi:
                        env[m[0]] = pconst(lo)
                        q = None
                        break
                if q is None:
                    continue
            for i in todo:
                a = D.atoms[i]
                if a.kind == "floor":
                    N, M, sg = a.defn
                    N = D.subst(D.subst(N, S.asm), env)
                    l, h = D.rng(N, facts=[(D.subst(D.subst(f[0], S.asm), env), f[1], f[2]) for f in S.facts])
                    if l > h:
                        return None
                    if l // M == h // M:
                        v = pconst(sg * (l // M))
                        if env.setdefault(i, v) != v:
                            return None
            if len(env) == n0:
                break
        return env

    def low(self, S, p, need=0):
        D = self.D
        D.asm = S.asm; D.facts = S.facts
        d = D.subst(p, S.asm)
        l = max(D.rng(d)[0], D.rng2(d)[0])
        if l < need:
            f = self.quot(S)
            if f:
                l = max(l, D.rng(d, facts=spec.Facts(list(S.facts) + f))[0])
        if l < need:
            t = self.tight(S, d)
            if t is None:
                return need
            if t:
                l = max(l, D.rng(D.subst(d, t), facts=[(D.subst(D.subst(f[0], S.asm), t), f[1], f[2]) for f in S.facts])[0])
        if l < need:
            # bounds of single words as bounds of atoms
            env = {}
            for f in S.facts:
                if len(f[0]) == 1:
                    (m, c), = f[0].items()
                    if len(m) == 1 and c == 1 and m[0] not in env:
                        a = D.atoms[m[0]]
                        if f[1] > a.lo or f[2] < a.hi:
                            k = (m[0], max(f[1], a.lo), min(f[2], a.hi))
                            if k not in self.narrow:
                                self.narrow[k] = D.atom("n%d" % len(D.atoms), k[1], k[2])
                            env[m[0]] = {(self.narrow[k],): 1}
            if env:
                l = max(l, D.rng(D.subst(d, env), facts=[(D.subst(f[0], env), f[1], f[2]) for f in S.facts])[0])
        return l

    def empty(self, S):
        """no values of the words satisfy the conditions of the path"""
        D = self.D
        D.asm = S.asm; D.facts = S.facts
        return self.tight(S, [m for f in S.facts for m in f[0]]) is None

    def decide(self, R, S, c, t, e, loc, work):
        """branch on a condition that intervals leave open: use the facts of the path"""
        D = self.D
        S.asm = D.asm; S.facts = D.facts
        v = None
        if isinstance(c, W):
            if self.same(S, c.p, {}):
                v = 0
                d = D.subst(c.p, S.asm)
                for m, k in d.items():
                    if len(m) == 1 and k in (1, -1) and D.atoms[m[0]].kind == "floor" and m[0] not in S.asm:
                        S.asm[m[0]] = pscale({x: y for x, y in d.items() if x != m}, -k)
                        break
            elif self.positive(S, c):
                v = 1
        if v is None:
            raise AnalysisError("branch on %r at %s" % (c, locstr(self.w.m, loc)))
        S.frames[-1].seg = t if v else e
        return S

    def quot(self, S):
        """what the facts on quotients say about their dividends"""
        D = self.D
        out = []
        ks = [({(k,): 1}, v) for k, v in S.asm.items() if D.atoms[k].kind == "floor"]
        todo = [(f[0], f[1], f[2]) for f in S.facts] + [(p, v.get((), 0), v.get((), 0)) for p, v in ks if not v or list(v) == [()]]
        while todo:
            p, l, h = todo.pop()
            if len(p) != 1:
                continue
            (m, c), = p.items()
            if len(m) != 1 or c != 1 or D.atoms[m[0]].kind != "floor":
                continue
            N, M, sg = D.atoms[m[0]].defn
            if sg < 0:
                l, h = -h, -l
            f = (D.subst(N, S.asm), l * M, h * M + M - 1)
            out.append(f); todo.append(f)
        return out


def sharing(n, groups):
    """set partitions of range(n)"""
    def rec(i, part):
        if i == n:
            yield tuple(part)
            return
        for b in range(max(part, default=-1) + 1 + 1):
            yield from rec(i + 1, part + [b])
    yield from rec(0, [])


class Case:
    """one operation: drv(args), args: ('o',) result, ('v',n) operand, ('k',value) constant, ('w',bits) word"""

    def __init__(self, drv, args, fn=None, judge=None, exits=None, ret=None, alljudge=None):
        self.drv = drv; self.args = args; self.fn = fn; self.judge = judge; self.exits = exits; self.ret = ret; self.alljudge = alljudge


def parts(args):
    """admissible sharing patterns: results and operands of the same size may be one object"""
    ids = [i for i, a in enumerate(args) if a[0] in ("o", "v", "b")]
    out = []

    def rec(k, m, groups):
        if k == len(ids):
            out.append(dict(m)); return
        i = ids[k]
        for g in range(len(groups) + 1):
            if g == len(groups):
                rec(k + 1, {**m, i: g}, groups + [[i]])
            else:
                G = groups[g]
                # two operands share only if they have the same number of words; two results never
                if all((args[j][-1] == "V") == (args[i][-1] == "V") and not (args[j][0] != "v" and args[i][0] != "v") and (args[j][0] == "o" or args[i][0] == "o" or args[j][1] == args[i][1]) for j in G):
                    rec(k + 1, {**m, i: g}, groups[:g] + [G + [i]] + groups[g + 1:])
    rec(0, {}, [])
    return out


def run_case(E, r, c, signed=False):
    w = E.w; D = E.D
    for pat in parts(c.args):
        for signs in ([()] if not signed else signlist(c, pat)):
            S = E.start()
            objs = {}
            addr = []
            polys = {}
            groups = {}
            for i, g in pat.items():
                groups.setdefault(g, []).append(i)
            for g, l in groups.items():
                vs = [i for i in l if c.args[i][0] in ("v", "b")]
                vcls = not signed or c.args[l[0]][-1] == "V"
                if not vcls:
                    a = S.new(E.szS, "Vsint")
                else:
                    a = S.new(E.szV, "Vuint")
                if vs:
                    n = c.args[vs[0]][1]
                    ws = E.words("xyz"[g] if g < 3 else "v%d" % g, n)
                else:
                    # a result object holds some earlier value: junk words, any size
                    ws = E.words("old%d_" % g, 4)
                if not vcls:
                    S, b = E.vuint(S, ws)
                    s = signs[g] if vs else 1
                    S = E.run1(S, "d_VS_make", [a, b, s])
                    p = pscale(E.poly(ws), -1 if s else 1)
                else:
                    S, a = E.vuint(S, ws, a)
                    p = E.poly(ws)
                objs[g] = (a, ws, p)
                for i in vs:
                    polys[i] = p; polys[("w", i)] = ws; polys[("abs", i)] = E.poly(ws)
            args = []
            for i, x in enumerate(c.args):
                if x[0] in ("o", "v", "b"):
                    args.append(objs[pat[i]][0])
                elif x[0] == "k":
                    args.append(x[1] & M64); polys[i] = pconst(x[1])
                elif x[0] == "w":
                    v = E.word("k", x[2] if len(x) > 2 else 0, (1 << x[1]) - 1)
                    args.append(v); polys[i] = v.p
                elif x[0] == "i":
                    # a signed machine integer: the sign is one of two cases
                    b = x[1]
                    neg = signs[-1]
                    v = E.word("k", (1 << (b - 1)) if neg else 0, (1 << b) - 1 if neg else (1 << (b - 1)) - 1)
                    args.append(v); polys[i] = psub(v.p, pconst((1 << b) if neg else 0))
                elif x[0] == "null":
                    args.append(0)
                elif x[0] == "a":
                    # array of n words of given size
                    n, b = x[1], x[2]
                    arr = S.new(max(8, n * b // 8), "array")
                    p = {}
                    for q in range(n):
                        v = E.word("a%d" % q, 0, (1 << b) - 1)
                        S.st(arr + q * b // 8, b // 8, v)
                        p = padd(p, pscale(v.p, 1 << (b * q)))
                    args.append(arr); polys[i] = p
            what = "%s%s%s" % (c.drv[2:], describe(c, pat), "" if not signed else " signs %s" % "".join("+-"[s] for s in signs))
            r.obl += 1
            try:
                outs = w.R.call(S, c.drv, args)
                for T in outs:
                    if T.result[0] == "end" and T.result[1] == "infeasible":
                        continue
                    r.paths += 1
                    D.asm = T.asm; D.facts = T.facts
                    if T.result[0] != "ret":
                        if c.exits and c.exits(E, T, polys):
                            continue
                        raise Violation("noreturn", "does not return (%s)" % (T.result[1],), T.frames_at_end[-1][1] if getattr(T, "frames_at_end", None) else 0)
                    check_path(E, T, c, pat, objs, polys, signed)
                r.dis += 1
            except Violation as e:
                r.viol.append((e.kind, "%s: %s" % (what, e.msg), locstr(w.m, e.loc) if e.loc else "include/zm.h: VuintT"))
                if len(r.viol) >= 3:
                    return


def check_path(E, T, c, pat, objs, polys, signed):
    written = set()
    for i, x in enumerate(c.args):
        if x[0] not in ("o", "b"):
            continue
        written.add(pat[i])
        exp = c.fn(i, polys) if c.fn else None
        if exp is None and not c.judge:
            continue
        for T2, got in value(E, T, objs[pat[i]][0], signed and x[-1] != "V"):
            if exp is not None:
                if not E.same(T2, got, exp):
                    raise Violation("value", "result is not the exact value")
            if c.judge:
                m = c.judge(E, T2, i, got, polys, T2.result0)
                if m:
                    raise Violation("value", m)
    for i, x in enumerate(c.args):
        if x[0] == "v" and pat[i] not in written:
            for T2, got in value(E, T, objs[pat[i]][0], signed and x[-1] != "V"):
                if not E.same(T2, got, objs[pat[i]][2]):
                    raise Violation("input", "operand is modified")
    if c.alljudge:
        outs = [(T, {})]
        for i, x in enumerate(c.args):
            if x[0] in ("o", "b"):
                outs = [(T3, {**v, i: got}) for T2, v in outs for T3, got in value(E, T2, objs[pat[i]][0], signed and x[-1] != "V")]
        for T2, v in outs:
            m = c.alljudge(E, T2, v, polys, T.result[1] if len(T.result) > 1 else None)
            if m and not E.empty(T2):
                raise Violation("value", m)
    if c.ret:
        m = c.ret(E, T, polys, T.result[1])
        if m:
            raise Violation("value", m)


def value(E, T, a, signed):
    """[(state, polynomial of the stored value)]"""
    if not signed:
        T2 = T.fork(); T2.result = T.result; T2.result0 = T.result[1] if len(T.result) > 1 else None
        return [(T2, E.poly(E.get(T, a)))]
    b = E.run1(T.fork(), "d_VS_get", [a]).result[1]
    p = E.poly(E.get(T, b))
    out = []
    for U in E.w.R.call(T.fork(), "d_VS_isNeg", [a]):
        if U.result[0] == "end" and U.result[1] == "infeasible":
            continue
        if U.result[0] != "ret":
            raise Violation("value", "the sign of the result is not determined")
        for U, n in truths(E, U, U.result[1]):
            U.frames = []
            U.result = T.result
            U.result0 = T.result[1] if len(T.result) > 1 else None
            out.append((U, pscale(p, -1) if n & 0xff else p))
    return out


def truths(E, U, v):
    """[(state, 0/1)] of a boolean result"""
    v = truth(E, U, v)
    if type(v) is int:
        return [(U, v)]
    c = E.I.cond(U, E.D.mk(v, 0, 1))
    if type(c) is int:
        return [(U, c)]
    out = []
    for b in (0, 1):
        T = U.fork()
        if E.I.assume(T, c[0], b):
            out.append((T, b ^ (1 if c[1] else 0)))
    return out


def signlist(c, pat):
    gs = sorted({g for i, g in pat.items() if c.args[i][0] in ("v", "b")})
    n = max(pat.values()) + 1
    if any(x[0] == "i" for x in c.args):
        gs.append(n)
        n += 1
    out = []
    for m in range(1 << len(gs)):
        l = [0] * n
        for q, g in enumerate(gs):
            l[g] = (m >> q) & 1
        out.append(l)
    return out


def describe(c, pat):
    s = []
    for i, x in enumerate(c.args):
        if x[0] in ("o", "b"):
            s.append("result%s" % "ABCDE"[pat[i]])
        elif x[0] == "v":
            s.append("%d words (%s)" % (x[1], "ABCDE"[pat[i]]))
        elif x[0] == "k":
            s.append(str(x[1]))
        elif x[0] == "w":
            s.append("any word")
        elif x[0] == "a":
            s.append("%d x %d bits" % (x[1], x[2]))
        else:
            s.append("null")
    return "(%s)" % ", ".join(s)


# ------------------------------------------------------------------- cases
def truth(E, T, v):
    if isinstance(v, W):
        D = E.D
        D.asm = T.asm; D.facts = T.facts
        p = D.subst(v.p, T.asm)
        l, h = D.rng(p)
        if l == h:
            return l
        return p
    return v


def relret(kind):
    """return value decides the order of operands 0 and 1"""
    def f(E, T, P, v):
        d = psub(P[0], P[1])
        D = E.D
        res = []
        v = truth(E, T, v)
        # states of the order consistent with this path
        rel = []
        if not type(v) is int:
            p = D.subst(v, T.asm)
            # a boolean polynomial: split on it
            from irx import W as _W
            c = E.I.cond(T, D.mk(p, 0, 1))
            if type(c) is int:
                v = c
            else:
                for b in (0, 1):
                    T2 = T.fork()
                    if E.I.assume(T2, c[0], b):
                        m = f(E, T2, P, b ^ (1 if c[1] else 0))
                        if m:
                            return m
                return None
        if v >> 31:
            v -= 1 << 32
        lt = E.low(T, pscale(d, -1)) >= 1     # X < Y proved
        gt = E.low(T, d) >= 1
        eq = E.same(T, d, {})
        le = lt or eq or E.low(T, pscale(d, -1)) >= 0
        ge = gt or eq or E.low(T, d) >= 0
        ok = {"cmp": (lt and v < 0) or (gt and v > 0) or (eq and v == 0),
              "lt": (lt and v == 1) or (ge and v == 0), "gt": (gt and v == 1) or (le and v == 0),
              "le": (le and v == 1) or (gt and v == 0), "ge": (ge and v == 1) or (lt and v == 0),
              "eq": (eq and v == 1) or ((lt or gt) and v == 0), "ne": (eq and v == 0) or ((lt or gt) and v == 1)}[kind]
        if not ok:
            return "returns %d on a path where that order is not implied" % v
        return None
    return f


def nofit(f):
    """the program may stop only when the exact result has more than NW words"""
    def g(E, T, P):
        p = f(P)
        b = 1 << (64 * NW)
        return max(E.low(T, p, b), E.low(T, pscale(p, -1), b)) >= b
    return g


def pm(a, b):
    import dom
    return dom.DOM.pmul(a, b)


def inrange(E, T, p, lo, hi):
    """lo <= p <= hi, hi a polynomial or a number"""
    hi = pconst(hi) if type(hi) is int else hi
    return E.low(T, psub(p, pconst(lo))) >= 0 and E.low(T, psub(hi, p)) >= 0


def divhook(E):
    """unsigned division [hi:lo]/b of the machine; faults unless hi < b"""
    def h(m, hi, lo, b):
        D = E.D
        T = m.S
        P = lambda v: D.subst(v.p, D.asm) if isinstance(v, W) else pconst(v)
        if D.rng(psub(P(b), P(hi)))[0] < 1:
            raise Violation("divzero", "hardware divide may fault (high part not below the divisor)", m.loc())
        q = D.atom("q%d" % len(D.atoms), 0, M64)
        N = padd(pscale(P(hi), 1 << 64), P(lo))
        r = psub(N, pm({(q,): 1}, P(b)))
        bh = b if type(b) is int else b.hi
        D.facts = spec.Facts(list(D.facts) + [(psub(psub(P(b), pconst(1)), r), 0, bh - 1), (r, 0, bh - 1)])
        m.r[0] = D.mk({(q,): 1}, 0, M64)
        m.r[2] = D.mk(r, 0, bh - 1)
    return h


def cases(group):
    g, sel = group[0], group[1]
    out = []
    S = range(0, NW + 1)          # words of an operand; 0 stands for the number zero
    A = out.append

    def C(d, args, fn=None, **k):
        A(Case(d, args, fn, **k))
    if g == "add":
        f = lambda i, P: padd(P[1], P[2])
        for x in S:
            for y in S:
                if x in sel:
                    C("d_V_add", [("o",), ("v", x), ("v", y)], f, exits=nofit(lambda P: f(0, P)))
    elif g == "sub":
        f = lambda i, P: psub(P[1], P[2])
        for x in S:
            for y in S:
                if x in sel:
                    C("d_V_sub", [("o",), ("v", x), ("v", y)], f, exits=lambda E, T, P: E.low(T, pscale(f(0, P), -1)) >= 1)
    elif g == "mul":
        for x in S:
            for y in S:
                if x in sel and max(x, 1) + max(y, 1) <= NW:
                    C("d_V_mul", [("o",), ("v", x), ("v", y)], lambda i, P: pm(P[1], P[2]))
    elif g == "cmp":
        for x in S:
            for y in S:
                if x in sel:
                    for k in ("cmp",) + (("lt", "le", "gt", "ge", "eq", "ne") if abs(x - y) < 2 and x < 4 else ()):
                        C("d_V_" + k, [("v", x), ("v", y)], ret=relret(k))
    elif g == "op":
        for x, y in ((1, 1), (2, 1), (1, 3), (4, 4), (3, 2)):
            a = lambda i, P: padd(P[1], P[2])
            s = lambda i, P: psub(P[1], P[2])
            neg = lambda f: (lambda E, T, P: E.low(T, pscale(f(0, P), -1)) >= 1)
            C("d_V_opadd", [("o",), ("v", x), ("v", y)], a)
            C("d_V_opsub", [("o",), ("v", x), ("v", y)], s, exits=neg(s))
            C("d_V_opmul", [("o",), ("v", x), ("v", y)], lambda i, P: pm(P[1], P[2]))
            a2 = lambda i, P: padd(P[0], P[1])
            s2 = lambda i, P: psub(P[0], P[1])
            C("d_V_addeq", [("b", x), ("v", y)], a2)
            C("d_V_subeq", [("b", x), ("v", y)], s2, exits=neg(s2))
            C("d_V_muleq", [("b", x), ("v", y)], lambda i, P: pm(P[0], P[1]))
        for x in S:
            f = lambda i, P: padd(P[0], P[1])
            C("d_V_addequ", [("b", x), ("w", 32)], f, exits=nofit(lambda P, f=f: f(0, P)))
    elif g == "misc":
        for x in S:
            f = lambda i, P: padd(P[1], P[2])
            C("d_V_addu", [("o",), ("v", x), ("w", 32)], f, exits=nofit(lambda P, f=f: f(0, P)))
            if x < NW:
                C("d_V_mul1", [("o",), ("v", x), ("w", 64)], lambda i, P: pm(P[1], P[2]))
            C("d_V_copy", [("o",), ("v", x)], lambda i, P: P[1])
            C("d_V_assign", [("o",), ("v", x)], lambda i, P: P[1])
            C("d_V_clear", [("b", x)], lambda i, P: {})
            for k in range(NW + 2):
                def gat(E, T, P, v, k=k, x=x):
                    want = ws_of(P, 0)[k].p if k < x else {}
                    got = v.p if isinstance(v, W) else pconst(v)
                    return None if E.same(T, got, want) else "is not word %d" % k
                C("d_V_getAt", [("v", x), ("k", k)], ret=gat)

            def isz(E, T, P, v):
                v = truth(E, T, v)
                if v == 0:
                    return None if E.low(T, P[0]) >= 1 else "says non-zero for a value that may be zero"
                return None if v == 1 and E.same(T, P[0], {}) else "says zero for a value that may be non-zero"
            C("d_V_isZero", [("v", x)], ret=isz)
        C("d_V_ctorw", [("o",), ("w", 64)], lambda i, P: P[1])
        for n in range(0, 2 * NW + 3):
            for d in ("set32", "reset32"):
                C("d_V_" + d, [("o",), ("a", n, 32), ("k", n)], lambda i, P: P[1], exits=(lambda E, T, P: True) if n > 2 * NW else None)
        for n in range(0, NW + 3):
            for d in ("setw", "resetw"):
                C("d_V_" + d, [("o",), ("a", n, 64), ("k", n)], lambda i, P: P[1], exits=(lambda E, T, P: True) if n > NW else None)
    elif g == "shl":
        for x in S:
            for n in sel:
                f = lambda i, P, n=n: pscale(P[1], 1 << n)
                C("d_V_shl", [("o",), ("v", x), ("k", n)], f, exits=nofit(lambda P, f=f: f(0, P)))
    elif g == "shr":
        for x in S:
            for n in sel:
                def j(E, T, i, got, P, r, n=n):
                    d = psub(P[1], pscale(got, 1 << n))
                    return None if inrange(E, T, d, 0, (1 << n) - 1) else "is not the value divided by 2^%d rounded down" % n
                C("d_V_shr", [("o",), ("v", x), ("k", n)], judge=j)
    elif g == "bit":
        for x in S:
            def bl(E, T, P, v):
                v = truth(E, T, v)
                if type(v) is not int:
                    return "bit length is not determined"
                if v == 0:
                    return None if E.same(T, P[0], {}) else "zero bits for a non-zero value"
                return None if inrange(E, T, psub(P[0], pconst(1 << (v - 1))), 0, (1 << (v - 1)) - 1) else "not %d bits" % v
            if x in sel:
                C("d_V_bitLen", [("v", x)], ret=bl)
    elif g == "div1":
        return divcases("d_V_", [(x, y) for x in sel for y in (0, 1)], False)
    elif g == "divn":
        return divcases("d_V_", sel, False)
    elif g.startswith("s_"):
        return scases(g[2:], sel)
    return out


def ws_of(P, i):
    return P[("w", i)]


def multiple(E, T, d, Y):
    """is the polynomial d a multiple of the linear polynomial Y?"""
    t = E.tight(T, list(d) + list(Y))
    if t is None:
        return True
    if t:
        d = E.D.subst(d, t); Y = E.D.subst(Y, t)
    m0 = max((m for m in Y if m), key=lambda m: abs(Y[m]), default=None)
    if m0 is None or len(m0) != 1:
        return False
    q = {}
    for m, c in d.items():
        if m0[0] in m:
            if c % Y[m0]:
                return False
            k = list(m); k.remove(m0[0])
            q[tuple(k)] = c // Y[m0]
    return E.same(T, pm(q, Y), d)


def dividing(E, T, X, Y, q, r, sgn=1):
    """q*Y + r == X and r lies between 0 and Y (exclusive), Y's sign sgn"""
    if q is not None:
        if not E.same(T, padd(pm(q, Y), r), X):
            return "quotient * divisor + remainder is not the dividend"
    else:
        D = E.D
        D.asm = T.asm; D.facts = T.facts
        d = D.subst(psub(X, r), T.asm)
        if d and not multiple(E, T, d, D.subst(Y, T.asm)):
            return "dividend - remainder is not a multiple of the divisor"
    if E.same(T, r, {}):
        return None
    r2, y2 = pscale(r, sgn), pscale(Y, sgn)
    return None if inrange(E, T, r2, 0, psub(y2, pconst(1))) else "remainder is not smaller than the divisor"


def divcases(pre, sel, signed):
    """sel: (words of the dividend, words of the divisor)"""
    out = []
    zero = lambda E, T, P, k: E.same(T, P[k], {})

    def rp(r):
        return r.p if isinstance(r, W) else pconst(r)
    for x, y in sel:
        if not signed and y == 1:
            def j(E, T, i, got, P, r):
                return dividing(E, T, P[1], P[2], got, rp(r))
            out.append(Case("d_V_div1", [("o",), ("v", x), ("w", 64, 1)], judge=j))
            out.append(Case("d_V_div1", [("null",), ("v", x), ("w", 64, 1)], ret=lambda E, T, P, r: dividing(E, T, P[1], P[2], None, rp(r))))

        def sg(E, T, p):
            return 1 if E.low(T, p) >= 0 else -1

        def full(E, T, vals, P, r):
            r = truth(E, T, r)
            if type(r) is not int:
                return "the result flag is not determined"
            if not r & 0xff:
                return None if zero(E, T, P, 3) else "refuses a divisor that may be non-zero"
            if zero(E, T, P, 3):
                return "accepts a zero divisor"
            return dividing(E, T, P[2], P[3], vals.get(0), vals[1], sg(E, T, P[3]))
        out.append(Case(pre + "div", [("o",), ("o",), ("v", x), ("v", y)], alljudge=full))
        out.append(Case(pre + "div", [("null",), ("o",), ("v", x), ("v", y)], alljudge=full))

        def quo(kx, ky):
            def f(E, T, vals, P, r):
                # floor: 0 <= (X - q Y)*sign < |Y|
                if zero(E, T, P, ky):
                    return None
                return dividing(E, T, P[kx], P[ky], vals[0], psub(P[kx], pm(vals[0], P[ky])), sg(E, T, P[ky]))
            return f

        def rem(kx, ky):
            def f(E, T, vals, P, r):
                if zero(E, T, P, ky):
                    return None
                return dividing(E, T, P[kx], P[ky], None, vals[0], sg(E, T, P[ky]))
            return f
        if x <= 3 and y <= 3:
            out.append(Case(pre + "opdiv", [("o",), ("v", x), ("v", y)], alljudge=quo(1, 2)))
            out.append(Case(pre + "opmod", [("o",), ("v", x), ("v", y)], alljudge=rem(1, 2)))
            if not signed:
                out.append(Case(pre + "diveq", [("b", x), ("v", y)], alljudge=quo(0, 1)))
                out.append(Case(pre + "modeq", [("b", x), ("v", y)], alljudge=rem(0, 1)))
    return out


def scases(g, sel):
    out = []
    S = range(0, NW + 1)          # words of an operand; 0 stands for the number zero

    def C(d, args, fn=None, **k):
        out.append(Case(d, args, fn, **k))
    add = lambda i, P: padd(P[1], P[2])
    sub = lambda i, P: psub(P[1], P[2])
    mul = lambda i, P: pm(P[1], P[2])
    if g in ("add", "sub"):
        for x in sel:
            for y in S:
                C("d_VS_" + g, [("o",), ("v", x), ("v", y)], add if g == "add" else sub, exits=nofit(lambda P: (add if g == "add" else sub)(0, P)))
    elif g == "mul":
        for x in S:
            for y in S:
                if x + y <= 5:
                    C("d_VS_mul", [("o",), ("v", x), ("v", y)], mul)
    elif g == "cmp":
        for x in S:
            for y in S:
                if x <= 3 and y <= 3 or x == y:
                    for k in ("cmp", "lt", "le", "gt", "ge", "eq", "ne"):
                        C("d_VS_" + k, [("v", x), ("v", y)], ret=relret(k))
    elif g == "misc":
        for x in S:
            C("d_VS_neg", [("o",), ("v", x)], lambda i, P: pscale(P[1], -1))
            C("d_VS_opneg", [("o",), ("v", x)], lambda i, P: pscale(P[1], -1))
            C("d_VS_clear", [("b", x)], lambda i, P: {})

            def isz(E, T, P, v):
                v = truth(E, T, v)
                if v == 0:
                    return None if max(E.low(T, P[0], 1), E.low(T, pscale(P[0], -1), 1)) >= 1 else "says non-zero for a value that may be zero"
                return None if v == 1 and E.same(T, P[0], {}) else "says zero for a value that may be non-zero"
            C("d_VS_isZero", [("v", x)], ret=isz)

            def isn(E, T, P, v):
                v = truth(E, T, v)
                if v == 0:
                    return None if E.low(T, P[0]) >= 0 else "says not negative for a value that may be negative"
                return None if v == 1 and E.low(T, pscale(P[0], -1), 1) >= 1 else "says negative for a value that may not be"
            C("d_VS_isNeg", [("v", x)], ret=isn)
            C("d_VS_abs", [("o", "V"), ("v", x)], lambda i, P: P[("abs", 1)])
            for n in (0, 1, 63, 64, 65, 130):
                f = lambda i, P, n=n: pscale(P[1], 1 << n)
                C("d_VS_shl", [("o",), ("v", x), ("k", n)], f, exits=nofit(lambda P, f=f: f(0, P)))

                def j(E, T, i, got, P, r, n=n):
                    d = psub(P[1], pscale(got, 1 << n))
                    return None if inrange(E, T, d, 0, (1 << n) - 1) else "is not the value divided by 2^%d rounded down" % n
                C("d_VS_shr", [("o",), ("v", x), ("k", n)], judge=j, exits=lambda E, T, P: E.low(T, pscale(P[1], -1), 1) >= 1)
        C("d_VS_seti", [("o",), ("i", 64)], lambda i, P: P[1])
        C("d_VS_ctori", [("o",), ("i", 32)], lambda i, P: P[1])
        C("d_VS_setw", [("o",), ("w", 64)], lambda i, P: P[1])
        for n in range(0, NW + 2):
            C("d_VS_setp", [("o",), ("a", n, 64), ("k", n)], lambda i, P: P[1], exits=(lambda E, T, P: True) if n > NW else None)
        for x in S:
            C("d_VS_setv", [("o",), ("v", x, "V")], lambda i, P: P[1])
        for x, y in ((1, 1), (2, 1), (2, 3)):
            C("d_VS_opadd", [("o",), ("v", x), ("v", y)], add)
            C("d_VS_opsub", [("o",), ("v", x), ("v", y)], sub)
            C("d_VS_opmul", [("o",), ("v", x), ("v", y)], mul)
            C("d_VS_addeq", [("b", x), ("v", y)], lambda i, P: padd(P[0], P[1]))
            C("d_VS_subeq", [("b", x), ("v", y)], lambda i, P: psub(P[0], P[1]))
            C("d_VS_muleq", [("b", x), ("v", y)], lambda i, P: pm(P[0], P[1]))
    elif g == "div":
        out = divcases("d_VS_", [(x, y) for x in sel for y in (0, 1)], True)
    elif g == "divn":
        out = divcases("d_VS_", sel, True)
    return out
