"""Independent reference arithmetic (plain integers mod p) for the curves, the
tower, the group law, the optimal ate pairing and its final exponentiation.
Written from the mathematics (Barreto-Naehrig curves, Vercauteren's optimal
pairing), not from the library."""


class Ref:
    def __init__(self, z, b, xia):
        self.z = z; self.b = b; self.xia = xia; self.pts = {}; self.prs = {}; self.inr = {}
        self.p = 36 * z**4 + 36 * z**3 + 24 * z**2 + 6 * z + 1
        self.r = 36 * z**4 + 36 * z**3 + 18 * z**2 + 6 * z + 1
        self.t = 6 * z**2 + 1
        self.R = (1 << 256) % self.p
        self.Ri = pow(self.R, -1, self.p)
        self.xi = (xia, 1)
        self.bt = self.m2(self.inv2(self.xi), (b % self.p, 0))   # twist: y^2 = x^3 + b/xi

    # ---- Fp2 = Fp[u]/(u^2+1), elements (a, b)
    def issq(self, a):
        return a % self.p == 0 or pow(a, (self.p - 1) // 2, self.p) == 1

    def inv1(self, a):
        return pow(a, self.p - 2, self.p)

    def a2(self, x, y): return ((x[0] + y[0]) % self.p, (x[1] + y[1]) % self.p)
    def s2(self, x, y): return ((x[0] - y[0]) % self.p, (x[1] - y[1]) % self.p)
    def n2(self, x): return (-x[0] % self.p, -x[1] % self.p)
    def k2(self, x, k): return (x[0] * k % self.p, x[1] * k % self.p)
    def m2(self, x, y): return ((x[0] * y[0] - x[1] * y[1]) % self.p, (x[0] * y[1] + x[1] * y[0]) % self.p)
    def c2(self, x): return (x[0], -x[1] % self.p)

    def inv2(self, x):
        n = self.inv1(x[0] * x[0] + x[1] * x[1])
        return (x[0] * n % self.p, -x[1] * n % self.p)

    def pow2(self, x, e):
        r = (1, 0)
        for ch in bin(e)[2:]:
            r = self.m2(r, r)
            if ch == "1":
                r = self.m2(r, x)
        return r

    # ---- Fp12 = Fp2[w]/(w^6 - xi): lists of six Fp2 coefficients of w^i
    def m12(self, x, y):
        # product of two polynomials in w of degree < 6 over Fp2, by packing the
        # coefficients into integers (each product coefficient is below 6*4*p^2 < 2^520)
        K = 528; M = (1 << K) - 1; p = self.p
        xa = xb = ya = yb = 0
        for i in (5, 4, 3, 2, 1, 0):
            xa = xa << K | x[i][0] % p; xb = xb << K | x[i][1] % p
            ya = ya << K | y[i][0] % p; yb = yb << K | y[i][1] % p
        s = xa * ya; t = xb * yb
        u = (xa + xb) * (ya + yb) - s - t          # coefficientwise >= 0
        r = []; i = []
        for _ in range(11):
            r.append((s & M) - (t & M)); i.append(u & M)
            s >>= K; t >>= K; u >>= K
        a = self.xia
        return [((r[j] + a * r[j + 6] - i[j + 6]) % p, (i[j] + a * i[j + 6] + r[j + 6]) % p) if j < 5 else (r[j] % p, i[j] % p) for j in range(6)]

    def one12(self): return [(1, 0)] + [(0, 0)] * 5

    def pow12(self, x, e):
        if e < 0:
            x = self.inv12(x); e = -e
        r = self.one12()
        for ch in bin(e)[2:]:
            r = self.m12(r, r)
            if ch == "1":
                r = self.m12(r, x)
        return r

    def frob12(self, x, n=1):
        for _ in range(n):
            g = self.pow2(self.xi, (self.p - 1) // 6)
            k = (1, 0)
            y = []
            for i in range(6):
                y.append(self.m2(self.c2(x[i]), k))
                k = self.m2(k, g)
            x = y
        return x

    def conj12(self, x):
        return [x[i] if i % 2 == 0 else self.n2(x[i]) for i in range(6)]

    def inv12(self, x):
        """by linear algebra free norm chain: N = x * x^(conj) in Fp6, then Fp2, then Fp"""
        c = self.conj12(x)
        n = self.m12(x, c)                  # in Fp6: even coefficients only
        y = self.frob12(n, 2); z = self.frob12(n, 4)
        yz = self.m12(y, z)
        m = self.m12(n, yz)                 # in Fp2
        k = self.inv2(m[0])
        return [self.m2(q, k) for q in self.m12(c, yz)]

    # ---- layout of the library: Fp12 = (a_, b_), Fp6 = (a_, b_, c_), v = w^2
    def tolib12(self, x):
        return [c for i in (0, 2, 4, 1, 3, 5) for c in x[i]]

    def fromlib12(self, f):
        q = [tuple(f[2 * i:2 * i + 2]) for i in range(6)]
        return [q[0], q[3], q[1], q[4], q[2], q[5]]

    def emb6(self, g):
        """library Fp6 (6 ints) as Fp12 element"""
        q = [tuple(g[2 * i:2 * i + 2]) for i in range(3)]
        return [q[0], (0, 0), q[1], (0, 0), q[2], (0, 0)]

    # ---- generic field dispatch: k = 1 (ints) or 2 (pairs)
    def F(self, k):
        return F1(self) if k == 1 else F2(self)

    # ---- affine group law; None is the point at infinity
    def ecadd(self, k, P, Q):
        f = self.F(k)
        if P is None:
            return Q
        if Q is None:
            return P
        if P[0] == Q[0]:
            if P[1] == Q[1] and P[1] != f.zero:
                return self.ecdbl(k, P)
            return None
        l = f.mul(f.sub(Q[1], P[1]), f.inv(f.sub(Q[0], P[0])))
        x = f.sub(f.sub(f.mul(l, l), P[0]), Q[0])
        return (x, f.sub(f.mul(l, f.sub(P[0], x)), P[1]))

    def ecdbl(self, k, P):
        f = self.F(k)
        if P is None or P[1] == f.zero:
            return None
        l = f.mul(f.mulk(f.mul(P[0], P[0]), 3), f.inv(f.mulk(P[1], 2)))
        x = f.sub(f.mul(l, l), f.mulk(P[0], 2))
        return (x, f.sub(f.mul(l, f.sub(P[0], x)), P[1]))

    def ecneg(self, k, P):
        return None if P is None else (P[0], self.F(k).sub(self.F(k).zero, P[1]))

    def inorder(self, P):
        """is the twist point P in the subgroup of order r?"""
        if P not in self.inr:
            self.inr[P] = self.ecmul(2, P, self.r) is None
        return self.inr[P]

    def ecmul(self, k, P, n):
        if n < 0:
            P = self.ecneg(k, P); n = -n
        R = None
        for ch in bin(n)[2:]:
            R = self.ecadd(k, R, R)
            if ch == "1":
                R = self.ecadd(k, R, P)
        return R

    def aff(self, k, J):
        """affine point of Jacobian coordinates"""
        f = self.F(k)
        X, Y, Z = J
        if Z == f.zero:
            return None
        i = f.inv(Z); i2 = f.mul(i, i)
        return (f.mul(X, i2), f.mul(Y, f.mul(i2, i)))

    def affh(self, k, H):
        f = self.F(k)
        X, Y, Z = H
        if Z == f.zero:
            return None
        i = f.inv(Z)
        return (f.mul(X, i), f.mul(Y, i))

    def oncurve(self, k, P):
        f = self.F(k)
        b = self.b % self.p if k == 1 else self.bt
        return P is None or f.sub(f.mul(P[1], P[1]), f.add(f.mul(f.mul(P[0], P[0]), P[0]), b)) == f.zero

    def sqrt1(self, a):
        y = pow(a, (self.p + 1) // 4, self.p)
        return y if y * y % self.p == a % self.p else None

    def sqrt2(self, a):
        p = self.p
        if a[1] == 0:
            y = self.sqrt1(a[0])
            if y is not None:
                return (y, 0)
            y = self.sqrt1(-a[0] % p)
            return (0, y)
        n = self.sqrt1((a[0] * a[0] + a[1] * a[1]) % p)
        if n is None:
            return None
        h = self.inv1(2)
        for s in (n, -n):
            x = self.sqrt1((a[0] + s) * h % p)
            if x is not None and x:
                r = (x, a[1] * self.inv1(2 * x) % p)
                if self.m2(r, r) == (a[0] % p, a[1] % p):
                    return r
        return None

    def point1(self, rnd):
        x0 = x = rnd() % self.p
        if x0 in self.pts:
            return self.pts[x0]
        while True:
            y = self.sqrt1((x**3 + self.b) % self.p)
            if y is not None:
                self.pts[x0] = (x, y)
                return (x, y)
            x = (x + 1) % self.p

    def point2(self, rnd, order=True):
        """point of the twist; in the order-r subgroup when order"""
        x0 = x = (rnd() % self.p, rnd() % self.p)
        if (x0, order) in self.pts:
            return self.pts[x0, order]
        while True:
            y = self.sqrt2(self.a2(self.m2(self.m2(x, x), x), self.bt))
            if y is not None:
                P = (x, y)
                if order:
                    P = self.ecmul(2, P, 2 * self.p - self.r)
                self.pts[x0, order] = P
                return P
            x = ((x[0] + 1) % self.p, x[1])

    # ---- pairing
    def untwist(self, Q):
        """E'(Fp2) -> E(Fp12): (x w^2, y w^3)"""
        z = (0, 0)
        return ([z, z, Q[0], z, z, z], [z, z, z, Q[1], z, z])

    def line(self, A, B, P):
        """line through A and B (twist points, tangent if equal) untwisted and
        evaluated at P=(x,y) of E(Fp), up to a factor in a proper subfield"""
        f = self.F(2)
        if A == B:
            l = f.mul(f.mulk(f.mul(A[0], A[0]), 3), f.inv(f.mulk(A[1], 2)))
        else:
            l = f.mul(f.sub(B[1], A[1]), f.inv(f.sub(B[0], A[0])))
        # y - l w x - (yA - l xA) w^3, slope in untwisted coordinates is l*w
        c3 = f.sub(f.mul(l, A[0]), A[1])
        z = (0, 0)
        return [(P[1] % self.p, 0), f.mulk(f.n(l), P[0]), z, c3, z, z]

    def frobtwist(self, Q, n):
        """p-power Frobenius of E carried to the twist"""
        for _ in range(n):
            gx = self.pow2(self.xi, (self.p - 1) // 3)
            gy = self.pow2(self.xi, (self.p - 1) // 2)
            Q = (self.m2(self.c2(Q[0]), gx), self.m2(self.c2(Q[1]), gy))
        return Q

    def miller(self, Q, P):
        s = 6 * self.z + 2
        f = self.one12()
        T = Q
        for ch in bin(abs(s))[3:]:
            f = self.m12(self.m12(f, f), self.line(T, T, P))
            T = self.ecadd(2, T, T)
            if ch == "1":
                f = self.m12(f, self.line(T, Q, P))
                T = self.ecadd(2, T, Q)
        if s < 0:
            T = self.ecneg(2, T)
            f = self.conj12(f)
        Q1 = self.frobtwist(Q, 1)
        Q2 = self.ecneg(2, self.frobtwist(Q, 2))
        f = self.m12(f, self.line(T, Q1, P))
        T = self.ecadd(2, T, Q1)
        return self.m12(f, self.line(T, Q2, P))

    def hard(self):
        """exponent of the hard part: a multiple of (p^4-p^2+1)/r"""
        z, p = self.z, self.p
        return p**3 * (12 * z**3 + 6 * z**2 + 4 * z - 1) + p**2 * (12 * z**3 + 6 * z**2 + 6 * z) + p * (12 * z**3 + 6 * z**2 + 4 * z) + 12 * z**3 + 12 * z**2 + 6 * z + 1

    def easy12(self, f):
        t = self.m12(self.conj12(f), self.inv12(f))
        return self.m12(self.frob12(t, 2), t)

    def finalexp(self, f):
        """f^((p^6-1)(p^2+1) * hard()); the hard part by simultaneous powering of
        the p-power Frobenius images, one per base-p digit of the exponent"""
        f = self.easy12(f)
        e = self.hard(); d = []
        for _ in range(4):
            d.append(e % self.p if len(d) < 3 else e); e //= self.p
        d[3] = d[3] % self.p if d[3] >= 0 else d[3]
        assert sum(d[i] * self.p**i for i in range(4)) == self.hard()
        g = [f, self.frob12(f), self.frob12(f, 2), self.frob12(f, 3)]
        for i in range(4):
            if d[i] < 0:
                d[i] = -d[i]; g[i] = self.inv12(g[i])
        tab = [self.one12()]
        for m in range(1, 16):
            i = m.bit_length() - 1
            tab.append(self.m12(tab[m ^ 1 << i], g[i]))
        r = self.one12()
        for k in range(max(d).bit_length() - 1, -1, -1):
            r = self.m12(r, r)
            m = sum((d[i] >> k & 1) << i for i in range(4))
            if m:
                r = self.m12(r, tab[m])
        return r

    def pairing(self, Q, P):
        if Q is None or P is None:
            return self.one12()
        k = Q, P
        if k not in self.prs:
            self.prs[k] = self.finalexp(self.miller(Q, P))
        return self.prs[k]


class F1:
    zero = 0; one = 1

    def __init__(self, R): self.R = R; self.p = R.p
    def add(self, x, y): return (x + y) % self.p
    def sub(self, x, y): return (x - y) % self.p
    def n(self, x): return -x % self.p
    def mul(self, x, y): return x * y % self.p
    def mulk(self, x, k): return x * k % self.p
    def inv(self, x): return self.R.inv1(x)


class F2:
    zero = (0, 0); one = (1, 0)

    def __init__(self, R): self.R = R; self.p = R.p
    def add(self, x, y): return self.R.a2(x, y)
    def sub(self, x, y): return self.R.s2(x, y)
    def n(self, x): return self.R.n2(x)
    def mul(self, x, y): return self.R.m2(x, y)
    def mulk(self, x, k): return self.R.k2(x, k)
    def inv(self, x): return self.R.inv2(x)


BN254 = (-((1 << 62) + (1 << 55) + 1), 2, 1)
SNARK1 = (4965661367192848881, 3, 9)
SNARK2 = (4965661367192848881, 82, 9)


def curve(cfg):
    return Ref(*(BN254 if cfg[0] == "d" else SNARK2 if cfg in ("s2", "s12") else SNARK1))


if __name__ == "__main__":
    import random
    rnd = random.Random(1)
    for c in (BN254, SNARK1, SNARK2):
        E = Ref(*c)
        P = E.point1(lambda: rnd.getrandbits(300)); Q = E.point2(lambda: rnd.getrandbits(300))
        assert E.oncurve(1, P) and E.oncurve(2, Q)
        assert E.ecmul(1, P, E.r) is None and E.ecmul(2, Q, E.r) is None
        x = [(rnd.getrandbits(250), rnd.getrandbits(250)) for _ in range(6)]
        y = [(rnd.getrandbits(250), 7) for _ in range(6)]
        t = [(0, 0)] * 12
        for i in range(6):
            for j in range(6):
                t[i + j] = E.a2(t[i + j], E.m2(x[i], y[j]))
        assert E.m12(x, y) == [E.a2(t[i], E.m2(t[i + 6], E.xi)) for i in range(6)]
        assert E.finalexp(x) == E.pow12(E.easy12(x), E.hard())
        assert E.hard() % ((E.p**4 - E.p**2 + 1) // E.r) == 0
        e = E.pairing(Q, P)
        assert e != E.one12()
        assert E.pairing(E.ecmul(2, Q, 5), P) == E.pow12(e, 5) == E.pairing(Q, E.ecmul(1, P, 5))
    print("reference self-test ok")
