"""Numeric abstract domain: integer polynomials over atoms, with intervals.

Every machine word is described by an exact integer polynomial over "atoms".
An atom is an input, or a value defined by floor(N/M) of another polynomial
(carries, borrows, high halves of products, right shifts), or an opaque value
introduced by a summary.  Intervals come from the atoms, from floor definitions
and from facts attached to the current trace partition.  No solver is involved:
all questions are answered by polynomial normal forms and interval arithmetic.
"""
from itertools import product
from math import gcd


class AnalysisError(Exception):
    """analysis could not decide (never reported as a violation)"""


class Undef:
    __slots__ = ()
    def __repr__(self): return "UNDEF"
UNDEF = Undef()



class PU:
    """partially undefined constant (bit-fields): value v, undefined bits u"""
    __slots__ = ("v", "u")

    def __init__(self, v, u):
        self.v = v; self.u = u


def mkpu(v, u):
    return v if u == 0 else PU(v & ~u, u)


ONE = ()


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def psub(a, b):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) - c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(a, k):
    if k == 0:
        return {}
    if k == 1:
        return a
    return {m: c * k for m, c in a.items()}


def pconst(k):
    return {ONE: k} if k else {}


def pkey(p):
    return frozenset(p.items())


class W:
    """abstract word: exact polynomial + interval (may also carry a tag)"""
    __slots__ = ("p", "lo", "hi")

    def __init__(self, p, lo, hi):
        self.p = p; self.lo = lo; self.hi = hi

    def __repr__(self):
        return "W(%s)" % DOM.show(self.p) if DOM else "W"


class FV:
    """multi-limb value held in memory: exact integer polynomial + interval"""
    __slots__ = ("p", "lo", "hi", "n", "limbs")

    def __init__(self, p, lo, hi, n, limbs=None):
        self.p = p; self.lo = lo; self.hi = hi; self.n = n; self.limbs = limbs

    def limb(self, i):
        if self.limbs is None:
            self.limbs = DOM.limbs_of(self)
        return self.limbs[i]

    def __repr__(self):
        return "FV(%s)" % (DOM.show(self.p),)


DOM = None
NODES = [0]


class Facts(list):
    """facts of a trace partition; anc = the partitions it refines"""
    __slots__ = ("anc", "node")

    def __init__(self, it=(), anc=frozenset(), node=0):
        list.__init__(self, it)
        self.anc = anc; self.node = node

    def copy(self):
        return Facts(self, self.anc, self.node)

    def derive(self, it):
        NODES[0] += 1
        return Facts(it, self.anc | {NODES[0]}, NODES[0])


class Atom:
    __slots__ = ("i", "name", "lo", "hi", "bool", "kind", "defn")

    def __init__(self, i, name, lo, hi, kind, defn):
        self.i = i; self.name = name; self.lo = lo; self.hi = hi
        self.bool = (lo == 0 and hi == 1)
        self.kind = kind; self.defn = defn


class Dom:
    def __init__(self):
        global DOM
        DOM = self
        self.atoms = []
        self.floors = {}
        self.eqs = {}
        self.facts = Facts()      # (poly, lo, hi) of the current partition
        self.asm = {}        # atom -> poly of the current partition
        self.zero = []       # (poly, atom) zero facts used to eliminate carries
        self.nfloor = 0
        self.limbcache = {}
        self.limb0 = {}
        self.modbits = {}
        self.pure = {}
        self.valnames = {}
        self.wordkeys = {}   # pkey -> (lo,hi) known word intervals

    # ---- atoms
    def atom(self, name, lo, hi, kind="in", defn=None):
        a = Atom(len(self.atoms), name, lo, hi, kind, defn)
        self.atoms.append(a)
        return a.i

    def var(self, name, lo, hi, kind="in", defn=None):
        i = self.atom(name, lo, hi, kind, defn)
        return W({(i,): 1}, lo, hi)

    # ---- multi-limb values
    def limbs_of(self, fv):
        p = self.subst(fv.p, self.asm) if self.asm else fv.p
        B = 1 << 64
        n = fv.n
        if not p or (len(p) == 1 and ONE in p):
            v = p.get(ONE, 0)
            return [(v >> (64 * i)) & (B - 1) for i in range(n)]
        p, lo, hi = self.nameval(p, fv.lo, fv.hi)
        k = (pkey(p), n)
        r = self.limbcache.get(k)
        if r is not None:
            return r
        (m, c), = p.items()
        nm = self.atoms[m[0]].name
        hi = self.atoms[m[0]].hi
        if lo < 0:
            raise AnalysisError("limbs of a possibly negative value")
        r = [None] * n
        rest = dict(p)
        for i in range(n - 1, 0, -1):
            h = min(B - 1, hi >> (64 * i))
            if h == 0:
                r[i] = 0
                continue
            a = self.atom("%s.%d" % (nm, i), 0, h, "limb", (p, i))
            self.atoms[a].defn = (p, i)
            r[i] = W({(a,): 1}, 0, h)
            rest = psub(rest, {(a,): 1 << (64 * i)})
            self.wordkeys[pkey(rest)] = (0, (1 << (64 * i)) - 1)
        r[0] = W(rest, 0, min(hi, B - 1))
        self.limbcache[k] = r
        return r

    def nameval(self, p, lo, hi):
        """single-atom name for a value polynomial"""
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1 and self.atoms[m[0]].kind in ("in", "val", "fld"):
                return p, max(lo, self.atoms[m[0]].lo), min(hi, self.atoms[m[0]].hi)
        k = pkey(p)
        i = None
        for nd, q in self.valnames.get(k, ()):
            if nd == 0 or nd in self.facts.anc:
                i = q
                break
        if i is None:
            l, h = self.rng2(p)
            lo = max(lo, l); hi = min(hi, h)
            i = self.atom("v%d" % len(self.atoms), lo, hi, "val", p)
            self.valnames.setdefault(k, []).append((self.facts.node, i))
        a = self.atoms[i]
        return {(i,): 1}, max(lo, a.lo), min(hi, a.hi)

    def ispure(self, i):
        r = self.pure.get(i)
        if r is None:
            d = self.atoms[i].defn
            r = self.pure[i] = len(d) <= 2 and all(len(m) <= 1 and all(self.atoms[j].kind == "floor" and self.atoms[j].hi - self.atoms[j].lo <= 16 for j in m) for m in d) or all(self.atoms[j].kind not in ("floor", "opaque", "eq") for m in self.atoms[i].defn for j in m)
        return r

    def expand(self, p, depth=50, pure=False):
        """replace named values by their exact definitions"""
        while depth:
            env = {}
            for m in p:
                for i in m:
                    a = self.atoms[i]
                    if a.kind == "val" and (not pure or self.ispure(i)):
                        env[i] = a.defn
            if not env:
                return p
            p = self.subst(p, env)
            if self.asm:
                p = self.subst(p, self.asm)
            depth -= 1
        return p

    def limbform(self, p):
        """rewrite values whose limbs occur in p as sums of their limbs"""
        vals = {}
        for m in p:
            for i in m:
                a = self.atoms[i]
                if a.kind == "limb":
                    vals[i] = 1
        if not vals:
            return p
        env = {}
        for i in vals:
            q, k = self.atoms[i].defn
            (m, c), = q.items()
            if m[0] in env or m[0] in self.asm:
                continue
            e = self.limb0.get(m[0])
            if e is None:
                ls = None
                for n in (4, 8):
                    ls = ls or self.limbcache.get((pkey(q), n))
                if not ls:
                    continue
                z = self.atom(self.atoms[m[0]].name + ".0", 0, ls[0].hi, "limb0", m[0])
                e = {(z,): 1}
                for k in range(1, len(ls)):
                    e = padd(e, pscale(self.P(ls[k]), 1 << (64 * k)))
                self.limb0[m[0]] = e
            env[m[0]] = e
        if not env:
            return p
        if self.asm:
            env = {i: self.subst(e, self.asm) for i, e in env.items()}
        return self.subst(p, env)

    def limbform2(self, p):
        """p with whole values rewritten as sums of limbs where facts mention the limbs"""
        vs = set()
        for f in self.facts:
            for m in f[0]:
                for i in m:
                    if self.atoms[i].kind == "limb":
                        vs.add(i)
        if not vs:
            return None
        q = padd(p, {(i,): 1 << 3000 for i in vs})
        q = self.limbform(q)
        for i in vs:
            q = psub(q, {(i,): 1 << 3000})
        return q

    def relax(self, p, maxterms=4000):
        """interval of p by eliminating floor atoms, newest first:
        floor(N/M) = (N-w)/M with w in [0,M-1]"""
        best_l, best_h = self.naive(p)
        q = p
        den = 1
        el = eh = 0           # accumulated interval of the w terms (over den)
        n = 0
        while n < 400:
            fl = None
            for m in q:
                for i in m:
                    if self.atoms[i].kind == "floor" and (fl is None or i > fl):
                        fl = i
            if fl is None:
                break
            N, M, sg = self.atoms[fl].defn
            lin = {}; rest = {}
            for m, c in q.items():
                if fl in m:
                    if m.count(fl) > 1:
                        return best_l, best_h
                    lin[tuple(x for x in m if x != fl)] = c
                else:
                    rest[m] = c
            # atom = sg * floor(N/M) = sg*(N-w)/M
            lin = pscale(lin, sg)
            ll, lh = self.naive(lin)
            # q = rest + lin*(N-w)/M   (all over den)
            q = padd(pscale(rest, M), self.pmul(lin, N))
            if self.asm:
                q = self.subst(q, self.asm)
            vs = (-ll * (M - 1), -lh * (M - 1), 0)
            el = el * M + min(vs); eh = eh * M + max(vs)
            den *= M
            n += 1
            if len(q) > maxterms:
                break
            a, b = self.naive(q)
            best_l = max(best_l, -((-(a + el)) // den)); best_h = min(best_h, (b + eh) // den)
            q2 = self.limbform(q)
            if q2 is not q:
                a, b = self.naive(q2)
                best_l = max(best_l, -((-(a + el)) // den)); best_h = min(best_h, (b + eh) // den)
            if self.facts:
                a, b = self._refine(q, a, b, self.facts)
                best_l = max(best_l, -((-(a + el)) // den)); best_h = min(best_h, (b + eh) // den)
        return best_l, best_h

    def rng2(self, p):
        """strongest interval available (used at value boundaries)"""
        lo, hi = self.rng(p)
        e = self.expand(p, pure=True)
        if len(e) <= 16:
            l, h = self.quad(e)
            lo = max(lo, l); hi = min(hi, h)
        if e is not p:
            l, h = self.rng(e)
            lo = max(lo, l); hi = min(hi, h)
        if e is not p:
            l, h = self.split(p, 2)
            lo = max(lo, l); hi = min(hi, h)
        if len(e) < 3000:
            l, h = self.split(e, 2)
            lo = max(lo, l); hi = min(hi, h)
        return lo, hi

    def quad(self, p):
        """interval with square and linear terms of an atom taken together"""
        sq = [m[0] for m in p if len(m) == 2 and m[0] == m[1] and (m[0],) in p and self.atoms[m[0]].hi is not None]
        if not sq:
            return self.naive(p)
        rest = dict(p)
        lo = hi = 0
        for x in sq:
            c = rest.pop((x, x)); d = rest.pop((x,))
            a = self.atoms[x]
            vs = [c * v * v + d * v for v in (a.lo, a.hi)]
            v = -d // (2 * c)
            vs += [c * u * u + d * u for u in (v, v + 1) if a.lo <= u <= a.hi]
            lo += min(vs); hi += max(vs)
        l, h = self.naive(rest)
        return lo + l, hi + h

    def split(self, p, depth):
        """interval of p by case distinction on carries/borrows and relaxation"""
        lo, hi = self.relax(p)
        if self.facts:
            l, h = self._refine(p, lo, hi, self.facts)
            lo = max(lo, l); hi = min(hi, h)
            q = self.limbform2(p)
            if q is not None:
                l, h = self._refine(q, lo, hi, self.facts)
                lo = max(lo, l); hi = min(hi, h)
        if lo >= hi or depth == 0:
            return lo, hi
        best = None
        for m, c in p.items():
            for i in m:
                a = self.atoms[i]
                if a.bool and (a.kind == "floor" or a.kind == "bit") and (best is None or abs(c) > best[0] or abs(c) == best[0] and i > best[1]):
                    best = (abs(c), i)
        if best is None or best[0] < (1 << 64):
            return lo, hi
        b = best[1]
        old = self.facts
        res = []
        if self.atoms[b].kind == "bit":
            N, M, fl, grp = self.atoms[b].defn
            sg = self.atoms[fl].defn[2]
            grp = [i for i in grp if i not in self.asm]
            try:
                for vs in product((0, 1), repeat=len(grp)):
                    env = {i: pconst(v) for i, v in zip(grp, vs)}
                    r = self.subst(self.modbits[fl], env)
                    if self.asm:
                        r = self.subst(r, self.asm)
                    r = r.get(ONE, 0)
                    nl, nh = self.rng(self.subst(N, env))
                    hl, hh = -((r - nl) // M), (nh - r) // M
                    if sg < 0:
                        hl, hh = -hh, -hl
                    if hl > hh:
                        continue
                    fs = [(self.subst(f[0], env), f[1], f[2]) for f in old]
                    fs.append(({(fl,): 1}, hl, hh))
                    self.facts = old.derive(fs)
                    res.append(self.split(self.subst(p, env), depth - 1))
            finally:
                self.facts = old
            if not res:
                return lo, hi
            return max(lo, min(r[0] for r in res)), min(hi, max(r[1] for r in res))
        try:
            for v in (0, 1):
                env = {b: pconst(v)}
                fs = [(self.subst(f[0], env), f[1], f[2]) for f in old]
                ok = True
                for (N, l, h) in self.boolfact(b, v):
                    N = self.subst(N, env)
                    nl, nh = self.naive(N)
                    if self.hasidx(N):
                        e = self.expand(N, pure=True)
                        a, c = self.relax(e)
                        nl = max(nl, a); nh = min(nh, c)
                        if e is not N:
                            fs.append((e, max(l, nl), min(h, nh)))
                    if nh < l or nl > h:
                        ok = False
                    fs.append((N, max(l, nl), min(h, nh)))
                if not ok:
                    continue
                self.facts = old.derive(fs)
                res.append(self.split(self.subst(p, env), depth - 1))
        finally:
            self.facts = old
        if not res:
            return lo, hi
        return max(lo, min(r[0] for r in res)), min(hi, max(r[1] for r in res))

    def show(self, p, maxt=12):
        if not p:
            return "0"
        out = []
        for m, c in sorted(p.items(), key=lambda t: (len(t[0]), t[0]))[:maxt]:
            s = "*".join(self.atoms[i].name for i in m)
            cs = str(c)
            if len(cs) > 12:
                for e in (64, 128, 192, 256, 320, 384, 448, 512):
                    if abs(c) == 1 << e:
                        cs = ("-" if c < 0 else "") + "2^%d" % e
                        break
                else:
                    cs = hex(c)
            out.append(cs if not s else (s if c == 1 else ("-" + s if c == -1 else cs + "*" + s)))
        r = " + ".join(out)
        if len(p) > maxt:
            r += " + ...(%d terms)" % len(p)
        return r

    # ---- polynomial multiplication with idempotent booleans
    def pmul(self, a, b):
        if not a or not b:
            return {}
        if len(a) > len(b):
            a, b = b, a
        r = {}
        atoms = self.atoms
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                if not m1:
                    m = m2
                elif not m2:
                    m = m1
                else:
                    l = sorted(m1 + m2)
                    m = tuple(l)
                    for k in range(len(l) - 1):
                        if l[k] == l[k + 1] and atoms[l[k]].bool:
                            o = []
                            for x in l:
                                if o and o[-1] == x and atoms[x].bool:
                                    continue
                                o.append(x)
                            m = tuple(o)
                            break
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return r

    # ---- intervals
    def naive(self, p):
        lo = hi = 0
        atoms = self.atoms
        for m, c in p.items():
            l = h = 1
            for i in m:
                a = atoms[i]
                if l >= 0 and a.lo >= 0:
                    l *= a.lo; h *= a.hi
                else:
                    vs = (l * a.lo, l * a.hi, h * a.lo, h * a.hi)
                    l = min(vs); h = max(vs)
            if c >= 0:
                lo += c * l; hi += c * h
            else:
                lo += c * h; hi += c * l
        return lo, hi

    def _refine(self, p, lo, hi, facts):
        for (f, fl, fh) in facts:
            if not f:
                continue
            # pick the best ratio from shared largest-coefficient monomial
            m = max(f, key=lambda t: (len(t), abs(f[t])))
            if m == ONE or m not in p:
                continue
            a, b = p[m], f[m]
            s = abs(b) // gcd(a, b)
            if s > 4:
                continue
            k = s * a // b
            rest = psub(pscale(p, s) if s > 1 else p, pscale(f, k))
            rl, rh = self.naive(rest)
            if k > 0:
                l, h = k * fl + rl, k * fh + rh
            else:
                l, h = k * fh + rl, k * fl + rh
            if s > 1:
                l, h = -(-l // s), h // s
            if l > lo:
                lo = l
            if h < hi:
                hi = h
        return lo, hi

    def boolfact(self, i, v):
        """fact implied by boolean atom i having value v: list of (poly,lo,hi)"""
        a = self.atoms[i]
        if a.kind == "floor":
            N, M, sgn = a.defn
            q = v if sgn > 0 else -v      # atom = sgn * floor(N/M)
            return [(N, M * q, M * q + M - 1)]
        return []

    def infeasible(self, bs):
        """booleans that cannot all be 1: two of their defining facts contradict"""
        fs = []
        for i in bs:
            fs += self.boolfact(i, 1)
        for k, (n1, l1, h1) in enumerate(fs):
            for (n2, l2, h2) in fs[:k]:
                s = padd(n1, n2)
                l, h = self.rng(s)
                if l > h1 + h2 or h < l1 + l2:
                    return True
        return False

    def dropinfeasible(self, p):
        """remove monomials containing contradictory booleans"""
        r = p
        for m in p:
            if len(m) >= 2:
                bs = [i for i in m if self.atoms[i].bool and self.atoms[i].kind == "floor"]
                if len(bs) >= 2 and self.infeasible(bs):
                    if r is p:
                        r = dict(p)
                    del r[m]
        return r

    def subst(self, p, env):
        """replace atoms by polynomials"""
        hit = False
        for m in p:
            for i in m:
                if i in env:
                    hit = True
                    break
            if hit:
                break
        if not hit:
            return p
        r = {}
        for m, c in p.items():
            ks = [i for i in m if i in env]
            if not ks:
                v = r.get(m, 0) + c
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
                continue
            t = {tuple(i for i in m if i not in env): c}
            for i in ks:
                t = self.pmul(t, env[i])
            for m2, c2 in t.items():
                v = r.get(m2, 0) + c2
                if v:
                    r[m2] = v
                else:
                    r.pop(m2, None)
        return r

    def rng(self, p, depth=3, facts=None):
        """interval of p in the current partition"""
        if not p:
            return 0, 0
        if len(p) == 1 and ONE in p:
            return p[ONE], p[ONE]
        facts = self.facts if facts is None else facts
        lo, hi = self.naive(p)
        k = pkey(p)
        wk = self.wordkeys.get(k)
        if wk:
            lo = max(lo, wk[0]); hi = min(hi, wk[1])
        if facts:
            lo, hi = self._refine(p, lo, hi, facts)
        if lo == hi or depth == 0:
            return lo, hi
        bs = []
        seen = set()
        for m in p:
            for i in m:
                if i not in seen:
                    seen.add(i)
                    if self.atoms[i].bool and self.atoms[i].kind == "floor":
                        bs.append(i)
        if not bs:
            return lo, hi
        # split on the most recent (outermost) boolean first
        b = max(bs, key=lambda i: max(abs(c) for m, c in p.items() if i in m))
        res = []
        for v in (0, 1):
            env = {b: pconst(v)}
            f2 = []
            for f in facts:
                f2.append((self.subst(f[0], env), f[1], f[2]))
            bf = self.boolfact(b, v)
            ok = True
            for (N, l, h) in bf:
                N = self.subst(N, env)
                nl, nh = self.naive(N)
                if facts:
                    nl, nh = self._refine(N, nl, nh, facts)
                if nh < l or nl > h:
                    ok = False
                f2.append((N, max(l, nl), min(h, nh)))
            if not ok:
                continue
            res.append(self.rng(self.subst(p, env), depth - 1, f2))
        if not res:
            return lo, hi      # contradictory partition; caller is unreachable
        return max(lo, min(r[0] for r in res)), min(hi, max(r[1] for r in res))

    def hasidx(self, N):
        """N contains a table row or quotient selected by a small index"""
        for m in N:
            for i in m:
                a = self.atoms[i]
                if a.kind == "floor":
                    if 1 < a.hi - a.lo <= 16:
                        return True
                elif a.kind == "val" and len(a.defn) <= 2:
                    for n in a.defn:
                        for j in n:
                            b = self.atoms[j]
                            if b.kind == "floor" and 1 < b.hi - b.lo <= 16:
                                return True
        return False

    # ---- floor division
    def floor(self, N, M, ql=None, qh=None):
        """polynomial for floor(N/M), M positive integer; [ql,qh] is a known
        interval of the quotient"""
        if M == 1:
            return N
        if self.asm:
            N = self.subst(N, self.asm)
        if not N:
            return N
        lo, hi = self.rng(N)
        if lo // M < hi // M and self.hasidx(N):
            l, h = self.rng2(N)
            lo = max(lo, l); hi = min(hi, h)
        if ql is not None:
            lo = max(lo, ql * M); hi = min(hi, qh * M + M - 1)
        if lo // M >= hi // M:
            return pconst(lo // M)
        # pull out multiples of M
        Q = {}; R = {}
        for m, c in N.items():
            if c % M == 0:
                Q[m] = c // M
            elif abs(c) > M and (m == ONE or all(self.atoms[i].bool for i in m)):
                q, r = divmod(c, M)
                if m != ONE and c < 0:
                    q += 1; r -= M
                Q[m] = q; R[m] = r
            else:
                R[m] = c
        if Q and R:
            l2 = h2 = None
            if ql is not None:
                a, b = self.rng(Q)
                l2, h2 = ql - b, qh - a
            return padd(Q, self.floor(R, M, l2, h2))
        if not R:
            return Q
        # function of at most two booleans: interpolate exactly
        bs = set()
        for m in R:
            bs.update(m)
            if len(bs) > 2:
                break
        if len(bs) <= 2 and all(self.atoms[i].bool for i in bs):
            bs = sorted(bs)
            out = {}
            for v in product((0, 1), repeat=len(bs)):
                t = 0
                env = dict(zip(bs, v))
                for m, c in R.items():
                    if all(env[i] for i in m):
                        t += c
                ind = {ONE: t // M}
                for i, x in zip(bs, v):
                    ind = self.pmul(ind, {(i,): 1} if x else {ONE: 1, (i,): -1})
                out = padd(out, ind)
            return padd(Q, out) if Q else out
        # common power of two
        if M & 1 == 0:
            g = M
            for c in R.values():
                g = gcd(g, c)
            if g > 1:
                l2, h2 = self.rng(R)
                l2, h2 = l2 // M, h2 // M
                if not Q:
                    l2 = max(l2, lo // M); h2 = min(h2, hi // M)
                t = self.floor({m: c // g for m, c in R.items()}, M // g, l2, h2)
                return padd(Q, t) if Q else t
            # strip a low part that cannot carry
            if len(R) <= 6:
                for g in sorted({c & -c for c in R.values()}, reverse=True):
                    if g < 2 or M % g:
                        continue
                    lo_ = {m: c for m, c in R.items() if c % g}
                    if not lo_:
                        continue
                    l, h = self.naive(lo_)
                    if l >= 0 and h < g:
                        t = self.floor({m: c // g for m, c in R.items() if c % g == 0}, M // g, ql, qh)
                        return padd(Q, t) if Q else t
        if len(R) == 1 and M >= 1 << 64 and M & (M - 1) == 0:
            (m, c), = R.items()
            if c == 1 and len(m) == 1 and self.atoms[m[0]].kind in ("in", "val", "fld"):
                for n in (4, 8):
                    ls = self.limbcache.get((pkey(R), n))
                    if ls:
                        k, j = divmod(M.bit_length() - 1, 64)
                        if k >= n:
                            break
                        out = self.P(self.shr(ls[k], j, 64)) if j else self.P(ls[k])
                        for i in range(k + 1, n):
                            out = padd(out, pscale(self.P(ls[i]), 1 << (64 * (i - k) - j)))
                        return padd(Q, out) if Q else out
        # inline a nested floor: floor((X + floor(N0/M0))/M) = floor((M0*X+N0)/(M0*M))
        best = None
        for m, c in R.items():
            if len(m) == 1 and (c == 1 or c == -1):
                a = self.atoms[m[0]]
                if a.kind == "floor" and a.defn[2] == c:
                    if best is None or a.i > best.i:
                        best = a
        if best is not None:
            N0, M0, sgn = best.defn
            rest = dict(R)
            del rest[(best.i,)]
            return self.floor(padd(pscale(rest, M0), N0), M * M0, lo // M, hi // M)
        key = (pkey(R), M)
        p = None
        for nd, q in self.floors.get(key, ()):
            if nd == 0 or nd in self.facts.anc:
                p = q
                break
        if p is None:
            # interval
            l, h = lo // M, hi // M
            if len(R) == 1:
                (m, c), = R.items()
                if c == 1 and len(m) == 1 and self.atoms[m[0]].kind == "limb":
                    q, k = self.atoms[m[0]].defn
                    l2, h2 = self.rng(q)
                    if l2 >> (64 * k) >= 0 and h2 >> (64 * k) < 1 << 64:
                        l = max(l, (l2 >> (64 * k)) // M); h = min(h, (h2 >> (64 * k)) // M)
                        if l >= h:
                            return padd(Q, pconst(l)) if Q else pconst(l)
            if -4 <= l and h <= 4 and M >= 1 << 64:
                E = self.expand(R, pure=True)
                if E is not R and any(c % M == 0 for c in E.values()):
                    t = self.floor(E, M, l, h)
                    return padd(Q, t) if Q else t
                if E is not R:
                    l2, h2 = self.naive(E)
                    l = max(l, l2 // M); h = min(h, h2 // M)
                if l < h:
                    l2, h2 = self.relax(E)
                    l = max(l, l2 // M); h = min(h, h2 // M)
                if l >= h:
                    return padd(Q, pconst(l)) if Q else pconst(l)
            self.nfloor += 1
            R0, M0 = R, M
            if len(R) == 1 and M >= 1 << 32:
                # leading bits of the top limb of a value: a quotient of the value
                (m, c), = R.items()
                if c == 1 and len(m) == 1 and self.atoms[m[0]].kind == "limb":
                    q, k = self.atoms[m[0]].defn
                    l2, h2 = self.rng(q)
                    if l2 >= 0 and h2 < 1 << (64 * k + 64):
                        R0 = self.expand(q, pure=True); M0 = M << (64 * k)
            if (l, h) == (-1, 0):
                i = self.atom("b%d" % len(self.atoms), 0, 1, "floor", (R, M, -1))
                p = {(i,): -1}
            else:
                i = self.atom(("c%d" if h <= 1 else "h%d") % len(self.atoms), l, h, "floor", (R0, M0, 1))
                p = {(i,): 1}
            self.floors.setdefault(key, []).append((self.facts.node, p))
        if self.asm:
            p = self.subst(p, self.asm)
        return p

    # ---- word construction
    def mk(self, p, lo=None, hi=None, n=None):
        if self.asm:
            p = self.subst(p, self.asm)
        if not p:
            return 0
        if len(p) == 1 and ONE in p:
            return p[ONE]
        if lo is None:
            lo, hi = self.rng(p)
            if lo == hi:
                return lo
        return W(p, lo, hi)

    def P(self, x):
        if type(x) is int:
            return pconst(x)
        if isinstance(x, W):
            return x.p
        raise AnalysisError("arithmetic on %r" % (x,))

    @staticmethod
    def iv(x):
        return (x, x) if type(x) is int else (x.lo, x.hi)

    def wrap(self, p, lo, hi, n):
        """word = p mod 2^n"""
        B = 1 << n
        if lo >= 0 and hi < B:
            return self.mk(p, lo, hi)
        f = self.floor(p, B, lo // B, hi // B)
        r = psub(p, pscale(f, B))
        return self.word(r, n)

    def word(self, r, n):
        """r is known to be in [0,2^n)"""
        B = 1 << n
        if self.asm:
            r = self.subst(r, self.asm)
        if not r:
            return 0
        if len(r) == 1 and ONE in r:
            return r[ONE]
        lo, hi = self.naive(r)
        lo = max(lo, 0); hi = min(hi, B - 1)
        if len(r) > 1 and self.modzero(r, B):
            # in [0,B) and a multiple of B: it is zero
            self.addzero(r, B)
            return 0
        k = pkey(r)
        wk = self.wordkeys.get(k)
        if wk is None:
            self.wordkeys[k] = (lo, hi)
        else:
            lo = max(lo, wk[0]); hi = min(hi, wk[1])
        return W(r, lo, hi)

    def modzero(self, r, B):
        for m, c in r.items():
            if c % B:
                return False
        return True

    def addzero(self, r, B):
        # r = B*(...) == 0 ; pick its newest floor atom with coefficient +-B
        best = None
        for m, c in r.items():
            if len(m) == 1 and abs(c) == B and self.atoms[m[0]].kind == "floor":
                if best is None or m[0] > best:
                    best = m[0]
        if best is None:
            return
        q = {m: c // B for m, c in r.items()}
        s = q.pop((best,))
        self.zero.append((best, pscale(q, -s)))   # atom = poly
        self.asm = dict(self.asm)
        # keep substitution closed
        e = pscale(q, -s)
        e = self.subst(e, self.asm)
        for k in list(self.asm):
            self.asm[k] = self.subst(self.asm[k], {best: e})
        self.asm[best] = e

    def add(self, x, y, n):
        if type(x) is int and type(y) is int:
            return (x + y) & ((1 << n) - 1)
        p = padd(self.P(x), self.P(y))
        xl, xh = self.iv(x); yl, yh = self.iv(y)
        return self.wrap(p, xl + yl, xh + yh, n)

    def sub(self, x, y, n):
        if type(x) is int and type(y) is int:
            return (x - y) & ((1 << n) - 1)
        p = psub(self.P(x), self.P(y))
        if not p:
            return 0
        xl, xh = self.iv(x); yl, yh = self.iv(y)
        lo, hi = xl - yh, xh - yl
        if lo < 0:
            lo2, hi2 = self.rng(p)
            lo, hi = max(lo, lo2), min(hi, hi2)
        return self.wrap(p, lo, hi, n)

    def mul(self, x, y, n):
        if type(x) is int and type(y) is int:
            return (x * y) & ((1 << n) - 1)
        p = self.pmul(self.P(x), self.P(y))
        xl, xh = self.iv(x); yl, yh = self.iv(y)
        return self.wrap(p, xl * yl, xh * yh, n)

    def mulfull(self, x, y, n):
        """(lo, hi) words of the full product"""
        x = self.name(x); y = self.name(y)
        if type(x) is int and type(y) is int:
            v = x * y
            return v & ((1 << n) - 1), v >> n
        p = self.pmul(self.P(x), self.P(y))
        xl, xh = self.iv(x); yl, yh = self.iv(y)
        f = self.floor(p, 1 << n, (xl * yl) >> n, (xh * yh) >> n)
        lo = self.wrap(p, xl * yl, xh * yh, n)
        hl, hh = (xl * yl) >> n, (xh * yh) >> n
        return lo, self.mk(f, hl, hh)

    def name(self, x):
        """give a complicated word its own atom before it is multiplied"""
        return x

    def shr(self, x, k, n):
        if type(x) is int:
            return x >> k
        f = self.floor(x.p, 1 << k, x.lo >> k, x.hi >> k)
        return self.mk(f, x.lo >> k, x.hi >> k)

    def shl(self, x, k, n):
        if type(x) is int:
            return (x << k) & ((1 << n) - 1)
        return self.wrap(pscale(x.p, 1 << k), x.lo << k, x.hi << k, n)

    def low(self, x, k):
        """x mod 2^k"""
        if type(x) is int:
            return x & ((1 << k) - 1)
        r = self.wrap(x.p, x.lo, x.hi, k)
        if k <= 2 and type(r) is W and not (len(r.p) == 1 and r.hi <= 1):
            return self.bitsof(r, k)
        return r

    def bitsof(self, r, k):
        """name the bits of r = N - 2^k*floor(N/2^k)"""
        M = 1 << k
        fl = None
        for m, c in r.p.items():
            if len(m) == 1 and self.atoms[m[0]].kind == "floor":
                a = self.atoms[m[0]]
                if a.defn[1] == M and abs(c) == M and psub(r.p, a.defn[0]) == {m: c}:
                    fl = a.i
        if fl is None:
            return r
        q = self.modbits.get(fl)
        if q is None:
            q = {}
            grp = []
            for j in range(k):
                i = self.atom("bit%d" % len(self.atoms), 0, 1, "bit", None)
                grp.append(i)
                q[(i,)] = 1 << j
            for i in grp:
                self.atoms[i].defn = (self.atoms[fl].defn[0], M, fl, tuple(grp))
            self.modbits[fl] = q
        if self.asm:
            q = self.subst(q, self.asm)
        return self.mk(q, *self.naive(q))

    # ---- predicates, returned as 0/1 int or boolean word
    def ult(self, x, y, n=64):
        if type(x) is int and type(y) is int:
            return int(x < y)
        xl, xh = self.iv(x); yl, yh = self.iv(y)
        if xh < yl:
            return 1
        if xl >= yh:
            return 0
        d = psub(self.P(x), self.P(y))
        lo, hi = self.rng(d)
        if lo >= 0:
            return 0
        if hi < 0:
            return 1
        f = self.floor(d, 1 << n, -1, 0)
        return self.mk(pscale(f, -1), 0, 1)

    def eq(self, x, y, n=64):
        if type(x) is int and type(y) is int:
            return int(x == y)
        d = psub(self.P(x), self.P(y))
        if self.asm:
            d = self.subst(d, self.asm)
        if not d:
            return 1
        lo, hi = self.rng(d)
        if lo > 0 or hi < 0:
            return 0
        if lo == hi == 0:
            return 1
        # boolean with interval {0,1}: expressible
        if lo == 0 and hi == 1:
            return self.mk(psub(pconst(1), d), 0, 1)
        if lo == -1 and hi == 0:
            return self.mk(padd(pconst(1), d), 0, 1)
        # normalise sign
        k1 = pkey(d)
        k2 = pkey(pscale(d, -1))
        for k in (k1, k2):
            if k in self.eqs:
                return self.mk({(self.eqs[k],): 1}, 0, 1)
        i = self.atom("eq%d" % len(self.atoms), 0, 1, "eq", d)
        self.eqs[k1] = i
        return self.mk({(i,): 1}, 0, 1)

    def bnot(self, b):
        if type(b) is int:
            return 1 - b
        return self.mk(psub(pconst(1), b.p), 0, 1)

    def band(self, a, b):
        if type(a) is int:
            return b if a else 0
        if type(b) is int:
            return a if b else 0
        p = self.pmul(a.p, b.p)
        return self.mkbool(p)

    def bor(self, a, b):
        if type(a) is int:
            return 1 if a else b
        if type(b) is int:
            return 1 if b else a
        p = psub(padd(a.p, b.p), self.pmul(a.p, b.p))
        return self.mkbool(p)

    def mkbool(self, p):
        lo, hi = self.rng(p)
        lo = max(lo, 0); hi = min(hi, 1)
        if lo == hi:
            return lo
        return self.mk(p, lo, hi)

    def select(self, c, x, y):
        """c ? x : y"""
        if type(c) is int:
            return x if c else y
        if type(x) is int and type(y) is int and x == y:
            return x
        if x is y:
            return x
        px, py = self.P(x), self.P(y)
        p = padd(py, self.pmul(c.p, psub(px, py)))
        xl, xh = self.iv(x); yl, yh = self.iv(y)
        return self.mk(p, min(xl, yl), max(xh, yh))
