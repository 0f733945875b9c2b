"""Field-value layer of the analyses: multi-limb values, algebraic value
numbering modulo p, and contracts of lower-level operations.

Residues.  Every value has an exact integer polynomial over atoms.  For
questions modulo p the polynomial is mapped through a fixed ring homomorphism
that sends each independent input atom to a pseudo-random residue (hash of its
name and VERIF_SEED): two polynomials of total degree d that differ get the
same number with probability at most d/p < 2^-240.  This is value numbering by
random interpretation (Gulwani/Necula); nothing of the library is executed.
"""
import hashlib, os
from itertools import product
from math import gcd
from dom import *
from dom import W, FV, UNDEF, AnalysisError, pconst, psub, padd, pscale, pkey
from irx import Run, State, Violation, PathEnd, Throw, Fork, SH, OFFM, locstr, Module
from models import VInterp
from x64 import X64, Machine, NeedFork

B64 = 1 << 64
BASE = ("in", "val", "fld", "rat", "bit")


class AI(VInterp):
    def __init__(self, mod, p=None):
        VInterp.__init__(self, mod)
        self.p = p
        self.seed = os.environ.get("VERIF_SEED", "1")
        self.resmemo = {}
        self.memokey = None
        self.memo = {}
        self.fldc = {}
        self.code = X64(self)
        self.unexplored = []
        self.unexq = []
        self.l3 = False
        self.l3base = 0
        self.ncontract = 0

    # ------------------------------------------------------------ residues
    def rand(self, name):
        h = hashlib.sha512(("%s|%s" % (self.seed, name)).encode()).digest()
        return int.from_bytes(h, "big") % self.p

    def ctx(self, asm, ov):
        k = (id(asm), id(ov))
        if k != self.memokey:
            self.memokey = k
            self._hold = (asm, ov)
            env = {i: q for i, q in asm.items() if self.D.atoms[i].kind in BASE} if asm else {}
            key = (frozenset((i, pkey(q)) for i, q in env.items()), frozenset(ov.items()) if ov else None)
            self.memo = self.resmemo.setdefault(key, {})
            self.env = env; self.ov = ov or {}
        return self.memo

    def ring(self, poly, S=None):
        """residue of an integer polynomial mod p, or None when it depends on
        carries or single limbs"""
        ov = S.user.get("ov") if S is not None else None
        self.ctx(self.D.asm, ov)
        return self._ring(poly)

    def _ring(self, poly):
        P = self.p
        if self.env:
            poly = self.D.subst(poly, self.env)
        t = 0
        for m, c in poly.items():
            c %= P
            if not c:
                continue
            for i in m:
                r = self._ares(i)
                if r is None:
                    return None
                c = c * r % P
            t += c
        return t % P

    def _ares(self, i):
        if i in self.ov:
            return self.ov[i]
        r = self.memo.get(i)
        if r is not None:
            return r
        a = self.D.atoms[i]
        if i in self.env:
            r = self._ring(self.env[i])
        elif a.kind == "in":
            r = a.defn if a.defn is not None else self.rand(a.name)
        elif a.kind in ("val", "fld"):
            r = self._ring(a.defn)
        elif a.kind == "rat":
            r = self._ring(a.defn)
            r = pow(r, self.p - 2, self.p) if r is not None else None
        elif a.kind == "bit":
            r = self.rand(a.name)
        elif a.kind == "floor" and i in self.D.modbits:
            N, M, sg = a.defn
            r = self._ring(N); b = self._ring(self.D.modbits[i])
            if r is not None and b is not None:
                r = (r - b) * pow(M * sg, self.p - 2, self.p) % self.p
        else:
            return None
        self.memo[i] = r
        return r

    # -------------------------------------------------------------- values
    def newval(self, name, lo, hi, n=4, res=None):
        i = self.D.atom(name, lo, hi, "in", res)
        return FV({(i,): 1}, lo, hi, n)

    def canon(self, poly, S):
        """the value already known to have the residue of poly, if any: two
        canonical values with equal residues are the same value"""
        D = self.D
        r = self.ring(poly, S)
        if r is None:
            return None, None
        k = ("canon", self.l3base)
        t = self.memo.get(k)
        if t is None:
            t = {0: {}}
            for i in range(self.l3base, len(D.atoms)):
                a = D.atoms[i]
                if a.kind in ("in", "fld") and a.lo >= 0 and a.hi < self.p and i not in self.env:
                    q = self._ares(i)
                    if q is not None:
                        t.setdefault(q, {(i,): 1})
            self.memo[k] = t
        return t.get(r), (t, r)

    def fld(self, poly, hi=None, n=4, kind="fld", lo=0, S=None):
        """fresh canonical value whose residue is that of poly"""
        D = self.D
        if hi is None:
            hi = self.p - 1
        if D.asm:
            poly = D.subst(poly, D.asm)
        poly = {m: c % self.p for m, c in poly.items() if c % self.p}
        if not poly:
            if hi < self.p:
                return FV({}, 0, 0, n)
        if len(poly) == 1 and kind == "fld" and hi == self.p - 1:
            (m, c), = poly.items()
            if m == ONE:
                return FV({ONE: c}, c, c, n)
            if len(m) == 1 and c == 1 and D.atoms[m[0]].lo >= 0 and D.atoms[m[0]].hi < self.p:
                return FV(poly, 0, D.atoms[m[0]].hi, n)
        slot = None
        if self.l3 and S is not None and kind == "fld" and hi == self.p - 1 and lo == 0:
            q, slot = self.canon(poly, S)
            if q is not None:
                h = hi
                if q:
                    (m, c), = q.items()
                    h = D.atoms[m[0]].hi
                else:
                    h = 0
                return FV(q, 0, h, n)
        k = (kind, pkey(poly), lo, hi)
        i = self.fldc.get(k)
        if i is None:
            i = D.atom("%s%d" % (kind[0], len(D.atoms)), lo, hi, kind, poly)
            self.fldc[k] = i
        if slot:
            slot[0][slot[1]] = {(i,): 1}
        return FV({(i,): 1}, lo, hi, n)

    def rd(self, S, addr, n=4, loc=0):
        """value stored at addr (n limbs)"""
        if type(addr) is not int:
            D = self.D
            v = self.lift([S.ld(D.add(addr, 8 * i, 64) if i else addr, 8, loc) for i in range(n)], 0, None, loc)
            if isinstance(v, FV):
                l, h = D.split(v.p, 3)
                v.lo = max(v.lo, l); v.hi = min(v.hi, h)
            return v
        o = S.mem.get(addr >> SH)
        off = addr & OFFM
        if o is None or off + 8 * n > o.size or not o.alive:
            S.oob(addr, 8 * n, "read", loc)
        c = o.cells.get(off)
        if c is not None and c[0] == 8 * n and type(c[1]) is FV:
            return c[1]
        ws = [S.ld(addr + 8 * i, 8, loc) for i in range(n)]
        return self.lift(ws, addr, o, loc)

    def lift(self, ws, addr=0, o=None, loc=0):
        D = self.D
        n = len(ws)
        p = {}
        lo = hi = 0
        for i, w in enumerate(ws):
            if type(w) is int:
                p = padd(p, pconst(w << (64 * i))); lo += w << (64 * i); hi += w << (64 * i)
            elif isinstance(w, W):
                p = padd(p, pscale(w.p, 1 << (64 * i)))
                lo += w.lo << (64 * i); hi += w.hi << (64 * i)
            elif w is UNDEF:
                raise Violation("undef", "limb %d of a value read from %s is uninitialised" % (i, o.name if o else "?"), loc)
            else:
                raise AnalysisError("value with limb %r" % (w,))
        if D.asm:
            p = D.subst(p, D.asm)
        if not p:
            return FV(p, 0, 0, n)
        if len(p) == 1 and ONE in p:
            return FV(p, p[ONE], p[ONE], n)
        l, h = D.rng2(p)
        return FV(p, max(lo, l), min(hi, h), n, list(ws))

    def wr(self, S, addr, v, loc=0):
        S.st(addr, 8 * v.n, v, loc)

    # --------------------------------------------------- equality partitions
    def fveq(self, S, x, y):
        """0/1/boolean word for equality of two canonical values"""
        D = self.D
        d = psub(x.p, y.p)
        if D.asm:
            d = D.subst(d, D.asm)
        if not d:
            return 1
        r = self.ring(d, S)
        if r == 0 and x.hi < self.p and y.hi < self.p:
            return 1
        lo, hi = D.rng(d)
        if lo > 0 or hi < 0:
            return 0
        if r is None:
            raise AnalysisError("equality of values with undetermined residues")
        for k in (pkey(d), pkey(pscale(d, -1))):
            if k in D.eqs:
                return D.mk({(D.eqs[k],): 1}, 0, 1)
        i = D.atom("eq%d" % len(D.atoms), 0, 1, "veq", d)
        D.eqs[pkey(d)] = i
        return D.mk({(i,): 1}, 0, 1)

    def assume(self, S, atom, val):
        a = self.D.atoms[atom]
        if a.kind == "veq":
            return self.assume_veq(S, atom, val)
        before = S.asm
        ok = VInterp.assume(self, S, atom, val)
        if ok and self.l3 and S.asm is not before:
            D = self.D
            D.asm = S.asm; D.facts = S.facts
            for i in list(S.asm):
                if i in before:
                    continue
                a = D.atoms[i]
                if a.kind == "in" and a.defn is not None and self.ring(psub(S.asm[i], pconst(a.defn)), S) != 0 or a.kind in ("fld", "val", "rat") and not self.solve(S, psub({(i,): 1} if a.kind == "rat" else a.defn, S.asm[i])):
                    # the partition leaves the variety the inputs were drawn from
                    self.miss(S, psub(a.defn if a.kind in ("fld", "val") else {(i,): 1}, S.asm[i]))
                    return False
        return ok

    def miss(self, S, d):
        """the inputs of this case do not satisfy the equation d = 0 of a partition"""
        S.user["unexplored"] = True
        self.unexplored.append((self.curdir, S.path[-1][2] if S.path else 0))
        self.unexq.append((self.curdir, d))

    def assume_veq(self, S, atom, val):
        D = self.D
        D.asm = S.asm; D.facts = S.facts
        d = D.subst(D.atoms[atom].defn, S.asm)
        if val == 0:
            if not d:
                return False
            S.asm = dict(S.asm); S.asm[atom] = {}
            D.asm = S.asm
            S.user["nz"] = S.user.get("nz", ()) + (d,)
            S.resubst()
            return True
        S.asm = dict(S.asm); S.asm[atom] = pconst(1)
        D.asm = S.asm
        e = D.expand(d)
        done = False
        if not any(D.atoms[i].kind in ("fld", "rat") or D.atoms[i].defn is not None and D.atoms[i].kind == "in" for m in e for i in m):
            done = self.addeq(S, e)
        if not done:
            # equality of derived values: constrain one input residue
            if not self.solve(S, d):
                self.miss(S, d)
                return False
            self.addeq(S, d)
        D.asm = S.asm; D.facts = S.facts
        for q in S.user.get("nz", ()):
            if self.ring(q, S) == 0:
                return False
        if self.ring(d, S) != 0:
            self.miss(S, d)
            return False
        S.resubst()
        return True

    def addeq(self, S, p):
        before = set(S.asm)
        r = S.addeq(p)
        D = self.D
        if r:
            for i in set(S.asm) - before:
                if D.atoms[i].kind in BASE:
                    self.limbsub(S, i)
        D.asm = S.asm; D.facts = S.facts
        return r

    def limbsub(self, S, i):
        D = self.D
        e = S.asm[i]
        for n in (4, 8):
            ls = D.limbcache.get((pkey({(i,): 1}), n))
            if not ls:
                continue
            lo, hi = D.rng(e)
            D.asm = S.asm
            q = D.limbs_of(FV(e, lo, hi, n))
            env = {}
            for k in range(1, n):
                if isinstance(ls[k], W):
                    (m, c), = ls[k].p.items()
                    if m[0] not in S.asm:
                        env[m[0]] = D.P(q[k])
            S.asm = {k: D.subst(v, env) for k, v in S.asm.items()}
            S.asm.update(env)

    def symring(self, S, poly, cap=3000):
        """polynomial mod p over input atoms (fld definitions expanded)"""
        D = self.D; P = self.p
        ov = S.user.get("ov") or {}
        for _ in range(60):
            if D.asm:
                poly = D.subst(poly, D.asm)
            poly = {m: c % P for m, c in poly.items() if c % P}
            best = None
            for m in poly:
                for i in m:
                    if D.atoms[i].kind in ("fld", "val") and (best is None or i > best):
                        best = i
            if best is None:
                break
            poly = D.subst(poly, {best: D.atoms[best].defn})
            if len(poly) > cap or max(map(len, poly), default=0) > 48:
                return None
        if any(D.atoms[i].kind != "in" for m in poly for i in m):
            return None
        return poly

    def solve(self, S, d):
        D = self.D; P = self.p
        g = self.symring(S, d)
        if g is None or not g:
            return False
        ov = S.user.get("ov") or {}
        eqs = S.user.get("eqs", ())
        if self.ring(g, S) == 0:
            return True
        cands = sorted({i for m in g for i in m if i not in ov and D.atoms[i].defn is None}, reverse=True)
        old = {i for q in eqs for m in q for i in m}
        tries = [([i], [g]) for i in cands if i not in old] + [(list(ov) + [i], list(eqs) + [g]) for i in cands]
        for un, sys_ in tries:
            r = self.affine(S, un, sys_)
            if r is None:
                continue
            ov = dict(ov)
            ov.update(r)
            prev = S.user.get("ov")
            S.user["ov"] = ov
            if any(self.ring(q, S) != 0 for q in tuple(eqs) + (g,)):
                S.user["ov"] = prev or {}
                ov = prev or {}
                continue
            S.user["eqs"] = eqs + (g,)
            S.user["path"] = S.user.get("path", ()) + (D.show(g, 4) + " = 0",)
            return True
        return False

    def affine(self, S, un, eqs):
        """one solution of equations that are jointly affine in the unknowns"""
        P = self.p
        rows = []
        us = set(un)
        for g in eqs:
            co = {i: {} for i in un}; c0 = {}
            for m, c in g.items():
                h = [i for i in m if i in us]
                if len(h) > 1:
                    return None
                if h:
                    l = list(m); l.remove(h[0])
                    co[h[0]][tuple(l)] = c
                else:
                    c0[m] = c
            row = [self.ring(co[i], S) for i in un] + [self.ring(c0, S)]
            if any(x is None for x in row):
                return None
            rows.append(row)
        n = len(un)
        piv = []
        r = 0
        for c in range(n - 1, -1, -1):
            k = next((j for j in range(r, len(rows)) if rows[j][c] % P), None)
            if k is None:
                continue
            rows[r], rows[k] = rows[k], rows[r]
            iv = pow(rows[r][c], P - 2, P)
            rows[r] = [x * iv % P for x in rows[r]]
            for j in range(len(rows)):
                if j != r and rows[j][c]:
                    f = rows[j][c]
                    rows[j] = [(x - f * y) % P for x, y in zip(rows[j], rows[r])]
            piv.append(c)
            r += 1
        if any(row[n] for row in rows[r:]):
            return None
        out = {un[c]: (S.user.get("ov") or {}).get(un[c], self._ares(un[c])) for c in range(n) if c not in piv}
        for j, c in enumerate(piv):
            v = -rows[j][n]
            for c2 in range(n):
                if c2 != c and rows[j][c2]:
                    v -= rows[j][c2] * out[un[c2]]
            out[un[c]] = v % P
        return out

    def symload(self, S, addr, size, loc):
        """load whose address depends on a few booleans (table lookup)"""
        D = self.D
        if isinstance(addr, W):
            bs = sorted({i for m in addr.p for i in m})
            if len(bs) <= 3 and all(D.atoms[i].bool for i in bs):
                val = {}
                for vs in product((0, 1), repeat=len(bs)):
                    env = {i: pconst(v) for i, v in zip(bs, vs)}
                    a = D.subst(addr.p, env).get(ONE, 0)
                    w = S.ld(a, size, loc)
                    ind = pconst(1)
                    for i, v in zip(bs, vs):
                        ind = D.pmul(ind, {(i,): 1} if v else {ONE: 1, (i,): -1})
                    val = padd(val, D.pmul(ind, D.P(w)))
                return D.mk(val)
            if len(bs) == 1:
                a = D.atoms[bs[0]]
                if a.kind == "floor" and a.hi - a.lo <= 16:
                    v = self.rowload(S, addr, bs[0], size, loc)
                    if v is not None:
                        return v
                    raise NeedFork(bs[0], range(a.lo, a.hi + 1))
            q = self.nameindex(addr)
            if q is not None:
                return self.symload(S, q, size, loc)
        raise AnalysisError("load from abstract address %r at %s" % (addr, locstr(self.m, loc)))

    def nameindex(self, addr):
        """address base + s*Q with a small range: name Q"""
        D = self.D
        base = addr.p.get(ONE, 0)
        s = 0
        for m, c in addr.p.items():
            if m != ONE:
                s = gcd(s, c)
        if s % 8 or len(addr.p) <= 2 and ONE in addr.p:
            return None
        Q = {m: c // s for m, c in addr.p.items() if m != ONE}
        if D.asm:
            Q = D.subst(Q, D.asm)
        lo, hi = D.rng2(Q)
        lo = max(lo, -((base - addr.lo) // s)); hi = min(hi, (addr.hi - base) // s)
        if hi - lo > 16:
            return None
        k = ("idx", pkey(Q))
        i = self.fldc.get(k)
        if i is None:
            i = self.fldc[k] = D.atom("h%d" % len(D.atoms), lo, hi, "floor", (Q, 1, 1))
        return W({ONE: base, (i,): s}, base + s * lo, base + s * hi)

    def rowload(self, S, addr, q, size, loc):
        """limb of a table row whose rows, as integers, are affine in the index"""
        D = self.D
        a = D.atoms[q]
        s = addr.p.get((q,), 0)
        base = addr.p.get(ONE, 0)
        if size != 8 or len(addr.p) > 2 or s % 32 or s <= 0 or s > 64:
            return None
        n = s // 8
        for k in range(n):
            rows = []
            try:
                for v in range(a.lo, a.hi + 1):
                    ws = [S.ld(base + s * v + 8 * (i - k), 8, loc) for i in range(n)]
                    if any(type(w) is not int for w in ws):
                        break
                    rows.append(sum(w << (64 * i) for i, w in enumerate(ws)))
            except Violation:
                if k == 0:
                    raise
                continue
            if len(rows) != a.hi + 1 - a.lo:
                continue
            d = rows[1] - rows[0]
            B = 1 << (64 * n)
            if all((rows[i + 1] - rows[i] - d) % B == 0 for i in range(len(rows) - 1)):
                p = padd(pconst(rows[0] - d * a.lo), {(q,): d})
                p = psub(p, pscale(D.floor(p, B), B))
                return D.limbs_of(FV(p, min(rows), max(rows), n))[k]
        return None

    # --------------------------------------- naming of values after a call
    def rename(self, S, written):
        """after an internal machine-code call: give multi-limb results names"""
        if self.p is None:
            return
        addrs = sorted(written)
        D = self.D
        i = 0
        while i < len(addrs):
            a = addrs[i]
            done = 0
            o = S.mem.get(a >> SH)
            if o is None:
                i += 1
                continue
            for n in (4, 8):
                if i + n > len(addrs) or addrs[i + n - 1] != a + 8 * (n - 1):
                    break
                ws = []
                for k in range(n):
                    c = o.cells.get((a & OFFM) + 8 * k)
                    if c is None or c[0] != 8 or not (type(c[1]) is int or isinstance(c[1], W)):
                        break
                    ws.append(c[1])
                if len(ws) < n:
                    break
                if all(type(w) is int for w in ws):
                    done = n
                    break
                p = {}
                for k, w in enumerate(ws):
                    p = padd(p, pscale(D.P(w), 1 << (64 * k)))
                if D.asm:
                    p = D.subst(p, D.asm)
                if self.ring(p, S) is None:
                    e = D.expand(p, pure=True)
                    if e is p or self.ring(e, S) is None:
                        continue
                    p = e
                canon = self.l3 and self.eager and n == 4
                if max(len(D.P(w)) for w in ws) <= 4 and n == 4 and len(p) <= (1 if canon else 3):
                    done = n
                    break
                lo, hi = D.rng2(p)
                if lo < 0:
                    break
                if canon and hi < self.p:
                    q = self.fld(p, S=S)
                    S.st(a, 8 * n, q)
                    done = n
                    break
                q, lo, hi = D.nameval(p, lo, hi)
                S.st(a, 8 * n, FV(q, lo, hi, n))
                done = n
                break
            i += done or 1
