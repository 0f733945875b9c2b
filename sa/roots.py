"""Refinement of input classes: inputs of a class that satisfy a further equation.

A class is a map from a tape of field elements (its free parameters) to operands.  A
branch whose condition is an equation F = 0 on the operands is never taken by the
class's generic member.  Here the restriction of F to one parameter is recovered as a
polynomial, its roots mod p are computed, and each gives a member of the class that
takes the branch."""
import random


def trim(a):
    while a and not a[-1]:
        a.pop()
    return a


def pmod(a, b, p):
    a = a[:]
    iv = pow(b[-1], p - 2, p)
    while len(a) >= len(b):
        c = a[-1] * iv % p
        if c:
            o = len(a) - len(b)
            for i, x in enumerate(b):
                a[o + i] = (a[o + i] - c * x) % p
        a.pop()
        trim(a)
    return a


def pdiv(a, b, p):
    a = a[:]; q = [0] * max(0, len(a) - len(b) + 1)
    iv = pow(b[-1], p - 2, p)
    while len(a) >= len(b):
        o = len(a) - len(b)
        c = q[o] = a[-1] * iv % p
        for i, x in enumerate(b):
            a[o + i] = (a[o + i] - c * x) % p
        a.pop(); trim(a)
    return q


def pmul(a, b, p):
    if not a or not b:
        return []
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i + j] += x * y
    return trim([x % p for x in r])


def gcd(a, b, p):
    while b:
        a, b = b, pmod(a, b, p)
    return a


def powmod(a, n, f, p):
    r = [1]
    a = pmod(a, f, p)
    while n:
        if n & 1:
            r = pmod(pmul(r, a, p), f, p)
        a = pmod(pmul(a, a, p), f, p)
        n >>= 1
    return r


def roots(f, p):
    """all roots of f mod p"""
    f = trim([c % p for c in f])
    if len(f) < 2:
        return []
    out = []
    if len(f) == 2:
        return [-f[0] * pow(f[1], p - 2, p) % p]
    if not f[0]:
        out.append(0)
        while not f[0]:
            f = f[1:]
        return out + [r for r in roots(f, p) if r]
    x = powmod([0, 1], p, f, p)
    x += [0] * (2 - len(x))
    x[1] = (x[1] - 1) % p
    g = gcd(f, trim(x), p)
    rnd = random.Random(7)
    st = [g]
    while st:
        g = st.pop()
        if len(g) < 2:
            continue
        if len(g) == 2:
            out.append(-g[0] * pow(g[1], p - 2, p) % p)
            continue
        while True:
            h = powmod([rnd.randrange(p), 1], (p - 1) // 2, g, p)
            h = h + [0] * (1 - len(h))
            h[0] = (h[0] - 1) % p
            h = gcd(g, trim(h), p)
            if 1 < len(h) < len(g):
                st += [h, pdiv(g, h, p)]
                break
    return sorted(out)


def interpolate(F, p, maxdeg=26):
    """coefficients of the polynomial function F, or None when it is not one of small degree"""
    xs, co = [], []          # Newton form
    zero = 0
    for k in range(maxdeg + 3):
        x = 3 + 17 * k
        y = F(x)
        if y is None:
            return None
        v = 0
        for c, a in zip(reversed(co), reversed(xs)):
            v = (v * (x - a) + c) % p
        w = 1
        for a in xs:
            w = w * (x - a) % p
        c = (y - v) * pow(w, p - 2, p) % p
        xs.append(x); co.append(c)
        zero = zero + 1 if not c else 0
        if zero == 3:
            f = []
            for c, a in zip(reversed(co), reversed(xs)):
                f = pmul(f, [-a % p, 1], p)
                f = f + [0] * (1 - len(f))
                f[0] = (f[0] + c) % p
            return trim(f)
    return None


class Tape:
    """parameters: drawn from base except for the fixed ones"""

    def __init__(self, base, fix=None):
        self.base = base; self.fix = fix or {}; self.n = 0

    def __call__(self):
        n = self.n
        self.n += 1
        v = self.fix.get(n)
        return self.base(n) if v is None else v
