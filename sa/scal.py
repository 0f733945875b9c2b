"""Scalar multiplication and powers: scalars are words of unknown bits, group
elements are known multiples of the operand.  Branches on an unknown bit are
followed on both sides up to the block where they meet again, where the two
states are joined (the multiple becomes a polynomial in the bit)."""
import re
import spec
from dom import W, FV, UNDEF, AnalysisError
from irx import Violation, PathEnd, Fn, State, Obj, DECLINE, locstr, sgn
from values import AI


class Sym:
    __slots__ = ()


class Poison(Sym):
    def __repr__(self):
        return "<differs between joined paths>"


POISON = Poison()


class GW(Sym):
    """word i of a stored group element"""
    __slots__ = ("t", "i", "n")

    def __init__(self, t, i, n):
        self.t = t; self.i = i; self.n = n


class Bits(Sym):
    """word of bits: each 0, 1 or the name of an unknown bit"""
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = tuple(b)

    def __repr__(self):
        return "bits"


class Neg(Sym):
    """two's complement of a non-zero word of bits whose top bit is clear"""
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m


class BitC(Sym):
    """truth value: unknown bit a (negated if neg), or the disjunction of several"""
    __slots__ = ("a", "neg")

    def __init__(self, a, neg):
        self.a = a; self.neg = neg


def mkbits(b, n):
    b = tuple(b[:n]) + (0,) * (n - len(b))
    if all(type(x) is int for x in b):
        return sum(x << i for i, x in enumerate(b))
    return Bits(b)


def bl(x, n):
    if type(x) is int:
        return tuple((x >> i) & 1 for i in range(n))
    return x.b[:n] + (0,) * (n - len(x.b))


class Mix:
    """transfer functions of the extra values"""

    def _chk(self, *v):
        for x in v:
            if not isinstance(x, (int, Bits, BitC)):
                raise AnalysisError("operation on %r" % (x if isinstance(x, Sym) else "a numeric unknown",))

    def bin(self, S, op, a, b, n, loc):
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return AI.bin(self, S, op, a, b, n, loc)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(b, Neg) and op == "sub" and type(a) is int and a == 0:
            return b.m
        self._chk(a, b)
        if isinstance(a, BitC) or isinstance(b, BitC):
            if n == 1 and op in ("xor", "and", "or"):
                if isinstance(b, BitC):
                    a, b = b, a
                if type(b) is int:
                    if op == "xor":
                        return BitC(a.a, a.neg ^ bool(b)) if b else a
                    if op == "and":
                        return a if b else 0
                    return 1 if b else a
            a, b = [mkbits([x.a], n) if isinstance(x, BitC) and not x.neg and len(x.a) == 1 else x for x in (a, b)]
            self._chk(a, b)
            if isinstance(a, BitC) or isinstance(b, BitC):
                raise AnalysisError("arithmetic on a compound condition")
        x, y = bl(a, n), bl(b, n) if not (op in ("shl", "lshr", "ashr")) else None
        if op in ("shl", "lshr", "ashr"):
            if type(b) is not int:
                raise AnalysisError("shift by an unknown amount")
            if b >= n:
                return UNDEF
            if op == "shl":
                return mkbits((0,) * b + x, n)
            return mkbits(x[b:] + ((x[-1],) * b if op == "ashr" else ()), n)
        if op in ("and", "or", "xor"):
            r = []
            for p, q in zip(x, y):
                if type(p) is int:
                    p, q = q, p
                if type(q) is not int:
                    if p == q and op != "xor":
                        r.append(p); continue
                    raise AnalysisError("%s of two unknown bits" % op)
                if type(p) is int:
                    r.append(p & q if op == "and" else p | q if op == "or" else p ^ q)
                elif op == "and":
                    r.append(p if q else 0)
                elif op == "or":
                    r.append(1 if q else p)
                elif q:
                    raise AnalysisError("complement of an unknown bit")
                else:
                    r.append(p)
            return mkbits(r, n)
        if op == "mul" and type(b) is int and b and b & (b - 1) == 0:
            return self.bin(S, "shl", a, b.bit_length() - 1, n, loc)
        if op in ("udiv", "urem") and type(b) is int and b and b & (b - 1) == 0:
            k = b.bit_length() - 1
            return mkbits(x[k:], n) if op == "udiv" else mkbits(x[:k], n)
        if op in ("sdiv", "srem") and type(b) is int and b and b & (b - 1) == 0 and x[n - 1] == 0:
            k = b.bit_length() - 1
            return mkbits(x[k:], n) if op == "sdiv" else mkbits(x[:k], n)
        if op == "add":
            if x == y:
                return mkbits((0,) + x, n)
            if all(p == 0 or q == 0 for p, q in zip(x, y)):
                return mkbits([q if p == 0 else p for p, q in zip(x, y)], n)
        if op == "sub" and all(q == 0 or p == q or p == 1 for p, q in zip(x, y)) and all(type(q) is int or p == q for p, q in zip(x, y)):
            return mkbits([0 if q else p for p, q in zip(x, y)], n)
        if op == "sub" and a == 0 and all(q == 0 for q in y[1:]):
            return mkbits([y[0]] * n, n)
        raise AnalysisError("%s on a word of unknown bits" % op)

    def icmp(self, S, pr, a, b, n, loc):
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return AI.icmp(self, S, pr, a, b, n, loc)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if n == 1 and pr in ("eq", "ne") and type(b) is int and isinstance(a, BitC):
            return BitC(a.a, a.neg ^ ((b == 1) == (pr == "ne")))
        if isinstance(a, Neg) and type(b) is int and b == 0:
            r = {"eq": 0, "ne": 1, "slt": 1, "sle": 1, "sgt": 0, "sge": 0, "ugt": 1, "uge": 1, "ult": 0, "ule": 0}
            return r[pr]
        self._chk(a, b)
        fix = S.user
        x, y = [tuple(fix.get(("bit", q), q) if type(q) is not int else q for q in bl(z, n)) for z in (a, b)]
        if pr in ("eq", "ne"):
            d = [(p, q) for p, q in zip(x, y) if p != q]
            if any(type(p) is int and type(q) is int for p, q in d):
                return 1 if pr == "ne" else 0
            if not d:
                return 1 if pr == "eq" else 0
            # equal iff every unknown bit has the wanted value
            one = [p if type(p) is not int else q for p, q in d]
            want = [q if type(p) is not int else p for p, q in d]
            if all(type(q) is int for q in want):
                if all(q == 0 for q in want):
                    return BitC(tuple(one), pr == "eq")
                if len(one) == 1:
                    return BitC(tuple(one), pr == "ne")
            raise AnalysisError("comparison of unknown words")
        lo = [sum((1 if q == 1 else 0) << i for i, q in enumerate(z)) for z in (x, y)]
        hi = [sum((0 if q == 0 else 1) << i for i, q in enumerate(z)) for z in (x, y)]
        if pr[0] == "s":
            for z, l in ((x, 0), (y, 1)):
                s = z[n - 1]
                if type(s) is not int:
                    if type(b) is int and b == 0 and pr in ("slt", "sge"):
                        return BitC((s,), pr == "sge")
                    if type(b) is int and sgn(b, n) == -1 and pr in ("sgt", "sle"):
                        return BitC((s,), pr == "sgt")
                    raise AnalysisError("signed comparison of an unknown word")
                if s:
                    lo[l] -= 1 << n; hi[l] -= 1 << n
        k = pr[1:]
        if k in ("gt", "ge"):
            lo.reverse(); hi.reverse(); x, y = y, x; k = {"gt": "lt", "ge": "le"}[k]
        if k == "lt":
            if hi[0] < lo[1]: return 1
            if lo[0] >= hi[1]: return 0
        else:
            if hi[0] <= lo[1]: return 1
            if lo[0] > hi[1]: return 0
        # 0 < word
        if k == "lt" and lo[0] == hi[0] == 0:
            u = [q for q in y if type(q) is not int]
            return BitC(tuple(u), False)
        # power of two bound
        if k == "lt" and lo[1] == hi[1] and lo[1] & (lo[1] - 1) == 0 or k == "le" and lo[1] == hi[1] and lo[1] & (lo[1] + 1) == 0:
            c = lo[1].bit_length() - (1 if k == "lt" else 0)
            u = [q for q in x[c:] if q != 0]
            if all(type(q) is not int for q in u):
                return BitC(tuple(u), True)
        raise AnalysisError("comparison of an unknown word")

    def trunc(self, S, a, f, t):
        if not isinstance(a, Sym):
            return AI.trunc(self, S, a, f, t)
        if isinstance(a, BitC):
            return a
        self._chk(a)
        r = mkbits(bl(a, f)[:t], t)
        if t == 1 and isinstance(r, Bits):
            return BitC(r.b, False)
        return r

    def sext(self, S, a, f, t):
        if not isinstance(a, Sym):
            return AI.sext(self, S, a, f, t)
        if isinstance(a, BitC):
            if a.neg or len(a.a) > 1:
                raise AnalysisError("extension of a compound condition")
            return Bits([a.a[0]] * t)
        self._chk(a)
        b = bl(a, f)
        return mkbits(b + (b[-1],) * (t - f), t)

    def sel(self, S, c, a, b):
        if isinstance(c, BitC):
            if a is b or (type(a) is int and type(a) is type(b) and a == b):
                return a
            if type(a) is int and type(b) is int and {a, b} == {0, 1}:
                return c if a else BitC(c.a, not c.neg)
            raise AnalysisError("selection by an unknown bit")
        if isinstance(a, Sym) or isinstance(b, Sym):
            raise AnalysisError("selection of unknown words")
        return AI.sel(self, S, c, a, b)

    def cond(self, S, c):
        if isinstance(c, Bits):
            b = [x for x in c.b if x != 0]
            if any(x == 1 for x in b):
                return 1
            c = BitC(tuple(b), False)
        if isinstance(c, BitC):
            u = []
            for x in c.a:
                v = S.user.get(("bit", x))
                if v == 1:
                    return 0 if c.neg else 1
                if v is None:
                    u.append(x)
            if not u:
                return 1 if c.neg else 0
            return BitC(tuple(u), c.neg)
        if isinstance(c, Sym):
            raise AnalysisError("branch on %r" % c)
        return AI.cond(self, S, c)


# ------------------------------------------------------------ multiples
def kadd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        c = r.get(m, 0) + s * c
        if c:
            r[m] = c
        else:
            r.pop(m, None)
    return r


def kscale(a, s):
    return {m: c * s for m, c in a.items()} if s else {}


def kbit(a, b):
    """k * bit b (b*b = b)"""
    r = {}
    for m, c in a.items():
        m = m if b in m else tuple(sorted(m + (b,)))
        c += r.get(m, 0)
        if c:
            r[m] = c
        else:
            r.pop(m, None)
    return r


def kset(a, b, v):
    """k with bit b known to be v"""
    r = {}
    for m, c in a.items():
        if b in m:
            if not v:
                continue
            m = tuple(x for x in m if x != b)
        c += r.get(m, 0)
        if c:
            r[m] = c
        else:
            r.pop(m, None)
    return r


class Group:
    """stored elements of one group: n words; neutral(S, a) recognises the neutral element in memory"""

    def __init__(self, w, n, neutral):
        self.w = w; self.n = n; self.neutral = neutral
        self.k = {}
        self.cnt = 0
        self.negof = {}        # token -> token of the element with negated y

    def negate(self, t):
        if t not in self.negof:
            u = self.tok(kscale(self.k[t], -1))
            self.negof[t] = u; self.negof[u] = t
        return self.negof[t]

    def tok(self, k):
        self.cnt += 1
        self.k[self.cnt] = k
        return self.cnt

    def put(self, S, a, k, loc=0):
        t = self.tok(k)
        for i in range(self.n):
            S.st(a + 8 * i, 8, GW(t, i, self.n), loc)
        return t

    def get(self, S, a, loc=0, raw=False):
        t = []
        for i in range(self.n):
            v = S.ld(a + 8 * i, 8, loc)
            if isinstance(v, GW) and v.n == self.n and v.i == i:
                t.append(v.t)
            else:
                t = None
                break
        if t:
            f = self.n // 3
            y = t[f]
            if all(q == t[0] for q in t[:f] + t[2 * f:]) and all(q == y for q in t[f:2 * f]) and (y == t[0] or self.negof.get(t[0]) == y):
                return self.k[y]
            if all(q == t[0] for q in t):
                return self.k[t[0]]
        if self.neutral(S, a):
            return {}
        if raw:
            return None
        raise AnalysisError("operand is not a known multiple of the argument")


def successors(b):
    ins = b[-1]
    op = ins[0]
    if op == "br":
        return [ins[5]] if ins[4] is None else [ins[5], ins[6]]
    if op == "switch":
        return [ins[5]] + [t for c, t in ins[6]]
    if op == "invoke":
        return [ins[8]]
    return []


def meet(m, fn, x, y):
    """the block where the paths from blocks x and y must meet"""
    j = m.fj(fn.name)["b"]
    if not hasattr(fn, "pdom"):
        n = len(j)
        succ = [successors(b) for b in j]
        ends = [i for i in range(n) if j[i][-1][0] == "ret"]
        # blocks that can return
        can = set(ends); ch = True
        while ch:
            ch = False
            for i in range(n):
                if i not in can and any(s in can for s in succ[i]):
                    can.add(i); ch = True
        full = set(can)
        pd = {i: ({i} if i in ends else set(full)) for i in can}
        ch = True
        while ch:
            ch = False
            for i in reversed(range(n)):
                if i not in can or i in ends:
                    continue
                s = [pd[q] for q in succ[i] if q in can]
                r = set.intersection(*s) | {i}
                if r != pd[i]:
                    pd[i] = r; ch = True
        fn.pdom = pd
    pd = fn.pdom
    if x not in pd or y not in pd:
        return None
    c = pd[x] & pd[y]
    # nearest: the common post-dominator all others post-dominate
    for q in c:
        if pd[q] == c:
            return q
    return None


def stopfn(fn, seg):
    c = fn.__dict__.setdefault("stops", {}) if hasattr(fn, "__dict__") else None
    if seg in c:
        return c[seg]
    g = Fn()
    g.__dict__.update({k: v for k, v in fn.__dict__.items() if k not in ("stops", "base", "blk")})
    g.base = getattr(fn, "base", fn)
    g.segs = list(g.base.segs)
    g.segs[seg] = lambda S, R: ("m", seg)
    c[seg] = g
    return g


class Joiner:
    def __init__(self, w, G):
        self.w = w; self.I = w.I; self.G = G
        self.joins = 0
        self.bits = set()

    def blockof(self, fn, seg):
        if seg in fn.edgeseg:
            return fn.edgeseg[seg]
        for b, s in fn.bstart.items():
            if s == seg:
                return b
        raise AnalysisError("branch target is not a block")

    def __call__(self, run, S, c, t, e, loc, work):
        if not isinstance(c, BitC):
            raise AnalysisError("branch on %r at %s" % (c, locstr(self.I.m, loc)))
        if len(c.a) != 1:
            raise AnalysisError("branch on several unknown bits at %s" % locstr(self.I.m, loc))
        a = c.a[0]
        self.bits.add(a)
        f = S.frames[-1]
        fn = getattr(f.fn, "base", f.fn)
        P = meet(self.I.m, fn, self.blockof(fn, t), self.blockof(fn, e))
        if P is None:
            raise AnalysisError("paths do not meet again after the branch at %s" % locstr(self.I.m, loc))
        stop = fn.bstart[P]
        sf = stopfn(fn, stop)
        outer = f.fn
        depth = len(S.frames)
        res = []
        for v in (0, 1):
            s = S.fork()
            s.user[("bit", a)] = v
            s.path.append((a, v, loc))
            g = s.frames[-1]
            g.fn = sf
            g.seg = t if (v == 1) != c.neg else e
            wk = []
            r = run.run(s, depth - 1, wk)
            if r is None or wk:
                raise AnalysisError("undecided branch below an unknown bit at %s" % locstr(self.I.m, loc))
            if r.result[0] != "m" or len(r.frames) != depth:
                raise AnalysisError("function returns on one side of an unknown bit at %s" % locstr(self.I.m, loc))
            r.user.pop(("bit", a))
            r.frames[-1].fn = outer
            r.frames[-1].seg = stop
            res.append(r)
        return self.join(a, res[0], res[1])

    def jv(self, x, y):
        if x is y or (type(x) is type(y) and type(x) in (int, float, bool) and x == y):
            return x
        if isinstance(x, Bits) and isinstance(y, Bits) and x.b == y.b:
            return x
        if isinstance(x, GW) and isinstance(y, GW) and (x.t, x.i, x.n) == (y.t, y.i, y.n):
            return x
        return POISON

    def join(self, a, X, Y):
        """X: bit a is 0, Y: bit a is 1"""
        self.joins += 1
        G = self.G
        M = X
        M.result = None
        for fx, fy in zip(X.frames, Y.frames):
            fx.R = [p if p is q else self.jv(p, q) for p, q in zip(fx.R, fy.R)]
        ym = Y.mem
        mem = dict(X.mem)
        lin = object()
        for i in [i for i, o in X.mem.items() if ym.get(i) is not o]:
            ox = X.mem[i]
            oy = ym.get(i)
            if oy is None:
                del mem[i]
                continue
            o = Obj(ox.id, ox.size, ox.name, ox.dflt)
            for k in ox.__slots__ if hasattr(ox, "__slots__") else ox.__dict__:
                setattr(o, k, getattr(ox, k))
            o.owner = lin
            o.alive = ox.alive and oy.alive
            o.cells = {}
            todo = set(ox.cells) | set(oy.cells)
            base = i << 16
            done = set()
            for off in sorted(todo):
                if off in done:
                    continue
                cx, cy = ox.cells.get(off), oy.cells.get(off)
                if cx is not None and cy is not None and cx[0] == cy[0]:
                    v = self.jv(cx[1], cy[1])
                    if v is not POISON:
                        o.cells[off] = (cx[0], v)
                        continue
                gw = [c[1] for c in (cx, cy) if c is not None and isinstance(c[1], GW)]
                if gw:
                    b0 = off - 8 * gw[0].i
                    ad = self.addr(ox, b0)
                    try:
                        kx, ky = G.get(X, ad, raw=True), G.get(Y, ad, raw=True)
                    except Violation:
                        kx = ky = None
                    if kx is not None and ky is not None:
                        # k = kx + a (ky - kx)
                        kx, ky = kset(kx, a, 0), kset(ky, a, 1)
                        k = kadd(kx, kbit(kadd(ky, kx, -1), a))
                        tk = G.tok(k)
                        for q in range(G.n):
                            o.cells[b0 + 8 * q] = (8, GW(tk, q, G.n)); done.add(b0 + 8 * q)
                        continue
                for c in (cx, cy):
                    if c is not None:
                        o.cells[off] = (c[0], POISON)
            mem[i] = o
        M.mem = mem
        M.lineage = lin
        return M

    def addr(self, o, off):
        from irx import SH
        return (o.id << SH) + off


# ----------------------------------------------------------------- the task
EC1 = "bn::EcT<mie::Fp>"
TYPES = {  # driver suffix -> kind of scalar
    "int": ("int", 32), "u64": ("uint", 64), "vuint": ("vuint", 64), "mpz": ("mpz", 64)}


def scalar(w, S, kind, n, lead, sign):
    """build a scalar of n words whose leading bit is `lead` (None: zero); returns (argument, polynomial)"""
    bits = kind in ("int", "uint")
    wb = {"int": 32, "uint": 64}.get(kind, 64)
    tot = wb * n
    if lead is None:
        b = [0] * tot
    else:
        b = ["b%d" % i for i in range(lead)] + [1] + [0] * (tot - lead - 1)
    k = {}
    for i, x in enumerate(b):
        if x == 1:
            k[()] = 1 << i
        elif x != 0:
            k[(x,)] = 1 << i
    if sign < 0:
        k = kscale(k, -1)
        if kind == "int":
            if lead == 31:
                return S, 1 << 31, {(): -(1 << 31)}
            if lead == 0:
                return S, (1 << 32) - 1, k
            return S, Neg(Bits(b)), k
    ws = [mkbits(b[i * wb:(i + 1) * wb], wb) for i in range(n)]
    if bits:
        return S, ws[0], k
    arr = S.new(max(8, 8 * n), "limbs")
    for i, x in enumerate(ws):
        S.st(arr + 8 * i, 8, x)
    if kind == "vuint":
        m = S.new(w.call1(w.S.fork(), "d_sizeof_Vuint", []).result[1], "scalar")
        S = w.call1(S, "d_V_setw", [m, arr, n])
        return S, m, k
    m = S.new(16, "scalar")
    S.st(m, 4, max(1, n)); S.st(m + 4, 4, (n if sign > 0 else -n) & 0xffffffff if lead is not None else 0); S.st(m + 8, 8, arr)
    return S, m, k


def mpzmodels(I):
    old = {n: I.models.get("__gmpz_" + n) for n in ("cmp_si", "cmp_ui")}

    def cmp0(S, a, loc):
        sz = S.ld(a[0] + 4, 4, loc)
        if type(a[1]) is not int or a[1] != 0 or type(sz) is not int:
            raise AnalysisError("comparison of an unknown integer with a non-zero one")
        sz = sgn(sz, 32)
        return ((sz > 0) - (sz < 0)) & 0xffffffff
    I.models["__gmpz_size"] = lambda S, a, loc: abs(sgn(S.ld(a[0] + 4, 4, loc), 32))
    I.models["llvm.is.constant.i1"] = I.models["llvm.is.constant.i64"] = lambda S, a, loc: 0
    I.models["__gmpz_cmp_si"] = I.models["__gmpz_cmp_ui"] = cmp0


def prepare(w):
    I = w.I
    if not isinstance(I, Mix):
        I.__class__ = type("AIS", (Mix, AI), {})
    mpzmodels(I)
    I.l3 = True


def fun(w, pat):
    return [n for d, n in w.m.dem.items() if re.match(pat, d)]


def ecgroup(w, g):
    n = 12 if g == 1 else 24
    nf = n // 3

    def neutral(S, a):
        return all(S.ld(a + 8 * i, 8) is not UNDEF and type(S.ld(a + 8 * i, 8)) is int and S.ld(a + 8 * i, 8) == 0 for i in range(2 * nf, n))
    G = Group(w, n, neutral)
    T = r"mie::Fp" if g == 1 else r"bn::Fp2T<mie::Fp>"
    I = w.I

    def dbl(S, a, loc):
        G.put(S, a[0], kscale(G.get(S, a[1], loc), 2), loc)

    def add(S, a, loc):
        G.put(S, a[0], kadd(G.get(S, a[1], loc), G.get(S, a[2], loc)), loc)

    for fn in fun(w, r"void bn::ecop::ECDouble<%s>\(" % T):
        I.models[fn] = dbl
    for fn in fun(w, r"void bn::ecop::ECAdd<%s>\(" % T):
        I.models[fn] = add

    def neg(S, a, loc, cw):
        ws = [S.ld(a[1] + 8 * i, 8, loc) for i in range(cw)]
        t, i0 = ws[0].t, ws[0].i
        if not all(isinstance(x, GW) and x.t == t and x.i == i0 + i for i, x in enumerate(ws)) or not nf <= i0 <= 2 * nf - cw:
            raise AnalysisError("negation of a coordinate other than y")
        u = G.negate(t)
        for i in range(cw):
            S.st(a[0] + 8 * i, 8, GW(u, i0 + i, n), loc)
    wrap(w, "mie::Fp::neg", lambda S, a, loc: neg(S, a, loc, 4))
    if g == 2:
        wrap(w, "bn::Fp2T<mie::Fp>::neg", lambda S, a, loc: neg(S, a, loc, 8))
    return G


def wrap(w, nm, h):
    """operation h on symbolic elements, the implementation itself on others"""
    I = w.I
    try:
        a = spec.slot_value(w, nm)
    except (KeyError, AnalysisError):
        return
    f = w.m.fbyaddr.get(a)
    base = I.models.get(f) if f is not None else I.code.summ.get(a)

    def g(S, args, loc):
        if any(isinstance(S.ld(x, 8), GW) for x in args[1:3]):
            return h(S, args, loc)
        if base is not None:
            return base(S, args, loc)
        if f is not None:
            return DECLINE
        s = I.code.summ.pop(a)
        try:
            return I.code(S, a, args, loc)
        finally:
            I.code.summ[a] = s
    if f is not None:
        I.models[f] = g
    else:
        I.code.summ[a] = g


def fieldgroup(w, sh):
    n = {"F": 4, "F2": 8, "F12": 48}[sh]
    I = w.I

    def neutral(S, a):
        for q in range(n // 4):
            v = 0
            for i in range(4):
                x = S.ld(a + 32 * q + 8 * i, 8)
                if type(x) is not int:
                    return False
                v |= x << (64 * i)
            if v != ((1 << 256) % I.p if q == 0 else 0):
                return False
        return True
    G = Group(w, n, neutral)

    def mul(S, a, loc):
        if any(S.ld(x, 8) is UNDEF for x in a[1:3]):
            raise Violation("undef", "multiplication of an uninitialised element", loc)
        G.put(S, a[0], kadd(G.get(S, a[1], loc), G.get(S, a[2], loc)), loc)

    def square(S, a, loc):
        G.put(S, a[0], kscale(G.get(S, a[1] if len(a) > 1 else a[0], loc), 2), loc)
    slots = {"F": [("mie::Fp::mul", mul)], "F2": [("bn::Fp2T<mie::Fp>::mul", mul), ("bn::Fp2T<mie::Fp>::square", square)],
             "F12": [("bn::Fp12T<bn::Fp6T<bn::Fp2T<mie::Fp>>>::mul", mul), ("bn::Fp12T<bn::Fp6T<bn::Fp2T<mie::Fp>>>::square", square)]}[sh]
    for nm, h in slots:
        wrap(w, nm, h)
    return G


def leads(kind, n, sign=1):
    if kind == "int":
        return list(range(32)) if sign < 0 else [None] + list(range(31))
    if kind == "uint":
        return [None] + list(range(64))
    return [None] if n == 0 else list(range(64 * (n - 1), 64 * n))


def kstr(k):
    s = []
    for m, c in sorted(k.items(), key=lambda x: (-abs(x[1]))):
        s.append("%s%s" % ("" if c == 1 and m else c, "*".join(("*" if c != 1 and i == 0 else "") + x for i, x in enumerate(m))))
    return " + ".join(s[:5]) + (" + ..." if len(s) > 5 else "") or "0"


def check(w, r, cfg, G, drv, kind, n, sign, alias, plist):
    I = w.I
    from irx import Run
    J = Joiner(w, G)
    w.R = Run(I); w.R.forker = J
    words = {1: "G1", 2: "G2"}
    for lead in plist:
        for al in alias:
            I.D.asm = {}; I.D.facts = spec.Facts()
            S = w.S.fork(); S.asm = {}; S.facts = I.D.facts; S.user = dict(S.user)
            S, m, k = scalar(w, S, kind, max(n, 1), lead, sign)
            x = S.new(8 * G.n, "operand")
            G.put(S, x, {(): 1})
            xw = [S.ld(x + 8 * i, 8) for i in range(G.n)]
            o = x if al else S.new(8 * G.n, "result")
            args = [o, x, m] if not drv.endswith("eq_int") else [o, m]
            what = "%s, scalar %s%s%s" % (drv[2:], "zero" if lead is None else "of %d words with leading bit %d" % (n, lead) if kind in ("vuint", "mpz") else "with leading bit %d" % lead,
                                          ", negative" if sign < 0 else "", ", in place" if al else "")
            r.obl += 1
            try:
                outs = w.R.call(S, drv, args)
                for T in outs:
                    r.paths += 1
                    if T.result[0] != "ret":
                        raise Violation("noreturn", "does not return (%s)" % (T.result[1],), T.frames_at_end[-1][1] if getattr(T, "frames_at_end", None) else 0)
                    got = G.get(T, o)
                    if kadd(got, k, -1):
                        raise Violation("value", "returns the multiple %s instead of %s" % (kstr(got), kstr(k)), 0)
                    if not al and any(T.ld(x + 8 * i, 8) is not xw[i] for i in range(G.n)):
                        raise Violation("input", "modifies its operand", 0)
                r.dis += 1
            except Violation as e:
                r.viol.append((e.kind, "[%s] %s: %s" % (cfg, what, e.msg), locstr(w.m, e.loc) if e.loc else "include/bn.h: ScalarMult / include/zm.h: power"))
                if len(r.viol) >= 3:
                    return
    r.joins = getattr(r, "joins", 0) + J.joins


DRV = []   # (driver, kind, sizes, signs, group)
for _g in (1, 2):
    for _d, _k in (("mul_int", "int"), ("opmul_int", "int"), ("muleq_int", "int"), ("mul_u64", "uint"), ("mul_vuint", "vuint"), ("mul_mpz", "mpz")):
        DRV.append(("d_Ec%d_%s" % (_g, _d), _k, str(_g)))
for _f in ("Fp12_powi:int:F12", "Fp12_powv:vuint:F12", "Fp12_powm:mpz:F12", "Fp_powv:vuint:F", "Fp2_powv:vuint:F2"):
    _d, _k, _g = _f.split(":")
    DRV.append(("d_" + _d, _k, _g))


def jobs(full=True):
    """(driver, kind, words, sign, group, part, parts)"""
    out = []
    for d, k, g in DRV:
        if k in ("int", "uint"):
            out.append((d, k, 1, 1, g, 0, 1))
            if k == "int" and g in "12":
                out.append((d, k, 1, -1, g, 0, 1))
        else:
            for n in range(0, 10 if k == "vuint" else 9):
                parts = 1 if n < 4 else 2
                # beyond the size of a group order: the end points of the word only, unless everything is asked for
                ps = range(parts) if full or n < 5 else [-1]
                for q in ps:
                    out.append((d, k, n, 1, g, q, parts))
                    if k == "mpz" and g in "12" and n and (full or n < 4):
                        out.append((d, k, n, -1, g, q, parts))
    return sorted(out, key=lambda j: -j[2])
