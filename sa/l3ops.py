"""Descriptions of the upper-level operations: cyclotomic arithmetic, line
functions, group law, point classes, pairings."""
from l3 import want, pr, fl, cyclo, SH3

Z1 = (0,)          # component fixed to the constant 0
N = None           # component independent


def pts(k, l):
    """three (or two) coordinates of field k from the flat list"""
    return list(l) if k == 1 else [tuple(l[i:i + 2]) for i in range(0, len(l), 2)]


def flat(k, P):
    return list(P) if k == 1 else [c for x in P for c in x]


def const(k, n):
    return [(n,)] if k == 1 else [(n,), (0,)]


def table(E, op):
    p = E.p

    def elib(f): return E.tolib12(f)
    def flib(l): return E.fromlib12(l)

    # ------------------------------------------------------ cyclotomic squaring
    def sq12(l): return elib(E.m12(flib(l), flib(l)))

    def pw(l, n): return elib(E.pow12(flib(l), n))
    cyc = lambda E, rnd: [cyclo(E, rnd)]
    op("Fp12::sqru", "d_Fp12_sqru", [("b", "F12")], lambda E, i, o, r: want(sq12(i[0]), o[0]), vals=cyc)
    op("Fp12::sqru(out)", "d_Fp12_sqru2", [("o", "F12"), ("i", "F12")], lambda E, i, o, r: want(sq12(i[1]), o[0]), vals=cyc)

    def sq4(x0, x1):
        return list(E.a2(E.m2(x0, x0), E.m2(E.xi, E.m2(x1, x1)))), list(E.k2(E.m2(x0, x1), 2))
    op("Fp12::sq_Fp4UseDbl", "d_sq_Fp4UseDbl", [("o", "F2"), ("o", "F2"), ("i", "F2"), ("i", "F2")],
       lambda E, i, o, r: (lambda e: want(e[0], o[0]) or want(e[1], o[1]))(sq4(tuple(i[2]), tuple(i[3]))), noalias=[(0, 1)],
       alias=[{0: 0, 1: 1, 2: 2, 3: 3}])

    def g2zero(E, rnd):
        return [g2zero_elem(E, rnd)]

    def g2root(E, rnd):
        e = g2zero_elem(E, rnd)
        return [pw(e, (E.p ** 4 - E.p ** 2 + 2) // 2)]

    one = [(1,)] + [(0,)] * 11
    # on the SNARK curve 6p exceeds 2^256: the lazy reduction of the compressed
    # form does not apply there, and no public operation uses it
    for drv in ("d_Comp_pow2n", "d_Comp_pow2nC") if 6 * p < 1 << 256 else ():
        for n in range(0 if drv[-1] == "C" else 1, 5):
            op("compressed squaring x%d" % n, drv, [("o", "F12"), ("i", "F12"), n], lambda E, i, o, r, n=n: want(pw(i[1], 1 << n), o[0]), vals=cyc, cover=True,
               alias=[{0: 0, 1: 1}])
        if drv[-1] == "C":
            op("compressed squaring, g2=0", drv, [("o", "F12"), ("i", "F12"), 0], lambda E, i, o, r: want(i[1], o[0]), vals=g2zero, cover=True, alias=[{0: 0, 1: 1}])
        op("compressed squaring, g2=0, once", drv, [("o", "F12"), ("i", "F12"), 1], lambda E, i, o, r: want(sq12(i[1]), o[0]), vals=g2root, cover=True, alias=[{0: 0, 1: 1}])
        op("compressed squaring of 1", drv, [("o", "F12"), ("i", "F12"), 3], lambda E, i, o, r: want(i[1], o[0]), vals=lambda E, rnd: [one], alias=[{0: 0, 1: 1}])
    if E.z == -((1 << 62) + (1 << 55) + 1):
        op("Compress::fixed_power", "d_Comp_fixed_power", [("o", "F12"), ("i", "F12")], lambda E, i, o, r: want(pw(i[1], abs(E.z)), o[0]), vals=cyc, cover=True, alias=[{0: 0, 1: 1}])
        op("Compress::fixed_power of 1", "d_Comp_fixed_power", [("o", "F12"), ("i", "F12")], lambda E, i, o, r: want(i[1], o[0]), vals=lambda E, rnd: [one], alias=[{0: 0, 1: 1}])
    else:
        op("Fp12::pow_neg_t", "d_Fp12_pow_neg_t", [("o", "F12"), ("i", "F12")], lambda E, i, o, r: want(pw(i[1], -abs(E.z)), o[0]), vals=cyc, cover=True, alias=[{0: 0, 1: 1}])
    op("Fp12::final_exp", "d_Fp12_final_exp", [("b", "F12")], lambda E, i, o, r: want(elib(E.finalexp(flib(i[0]))), o[0]), cover=True)
    op("Fp12::final_exp of 1", "d_Fp12_final_exp", [("b", "F12")], lambda E, i, o, r: want(i[0], o[0]), vals=lambda E, rnd: [one])

    # -------------------------------------------------- sparse multiplications
    def sparse(g):
        q = pts(2, g); z = (0, 0)
        return [q[0], z, z, q[1], q[2], z]          # w^0, w^3, w^4
    op("Fp12::Dbl::mul_Fp2_024", "d_F12D_mul024", [("b", "F12"), ("i", "F6")], lambda E, i, o, r: want(elib(E.m12(flib(i[0]), sparse(i[1]))), o[0]), alias=[{0: 0, 1: 1}])
    op("Fp12::Dbl::mul_Fp2_024", "d_F12D_mul024C", [("b", "F12"), ("i", "F6")], lambda E, i, o, r: want(elib(E.m12(flib(i[0]), sparse(i[1]))), o[0]), alias=[{0: 0, 1: 1}])
    op("Fp12::Dbl::mul_Fp2_024_Fp2_024", "d_F12D_mul024_024", [("o", "F12"), ("i", "F6"), ("i", "F6")], lambda E, i, o, r: want(elib(E.m12(sparse(i[1]), sparse(i[2]))), o[0]),
       alias=[{0: 0, 1: 1, 2: 2}, {0: 0, 1: 1, 2: 1}])

    # ------------------------------------------------------------ line functions
    def prop(l, e):
        """l = k*e for one nonzero k of Fp2"""
        l = pts(2, l); e = pts(2, fl(e))
        j = [x for x in range(3) if e[x] != (0, 0)]
        k = E.m2(l[j[0]], E.inv2(e[j[0]]))
        if k == (0, 0):
            return "line is zero"
        for x in range(3):
            if E.m2(k, e[x]) != l[x]:
                return "line coefficient %d differs from the specified line" % x
        return None

    def line(A, B, P):
        c = E.line(A, B, P)
        return [E.m2(c[3], E.xi), c[0], c[1]]

    def jline(E, l, T0, Q, R1, P):
        A = E.affh(2, pts(2, T0))
        B = A if Q is None else tuple(pts(2, Q)[:2])
        m = prop(l, line(A, B, P))
        if m:
            return m
        if E.affh(2, pts(2, R1)) != (E.ecdbl(2, A) if Q is None else E.ecadd(2, A, B)):
            return "running point is not the specified multiple"
        return None

    def ontwist(E, rnd, rest=0):
        A = E.point2(rnd, order=False)
        z = (rnd() % p, rnd() % p)
        return [flat(2, (E.m2(A[0], z), E.m2(A[1], z), z))]
    def ontwist0(E, rnd, c):
        """scaled so that component c of Y*Z is zero"""
        while True:
            A = E.point2(rnd, order=False)
            r = rnd() % p
            z = E.sqrt2(E.m2((r, 0) if c else (0, r), E.inv2(A[1])))
            if z is not None:
                return [flat(2, (E.m2(A[0], z), E.m2(A[1], z), z))]
    def lpre(E, g):
        """the line functions take a finite running point other than plus or minus the point added"""
        n = [[c[0] if type(c) is tuple else c for c in l] for l in g]
        if not any(n[0][4:]):
            return False
        A = E.affh(2, pts(2, n[0]))
        return A[0] != tuple(n[1][:2]) if len(n[1:]) and len(n[1]) == 4 else A[1] != (0, 0)
    for cn, f in (("", ontwist), (", line coefficient with zero real part", lambda E, rnd: ontwist0(E, rnd, 0)), (", line coefficient with zero imaginary part", lambda E, rnd: ontwist0(E, rnd, 1))):
        for drv in ("d_pointDbl", "d_pointDblC"):
            op("Fp6::pointDblLineEval" + cn, drv, [("o", "F6"), ("b", "P2"), ("i", "A1")],
               lambda E, i, o, r: jline(E, o[0], i[1], None, o[1], i[2]), vals=lambda E, rnd, f=f: f(E, rnd) + [[N, N]], alias=[{0: 0, 1: 1, 2: 2}], pre=lpre)
        for drv in ("d_pointDblNoP", "d_pointDblNoPC"):
            op("Fp6::pointDblLineEvalWithoutP" + cn, drv, [("o", "F6"), ("b", "P2")],
               lambda E, i, o, r: jline(E, o[0], i[1], None, o[1], (1, 1)), vals=f, alias=[{0: 0, 1: 1}], lazy={0: {4: 3, 5: 3}}, pre=lpre)
    op("Fp6::pointAddLineEval", "d_pointAdd", [("o", "F6"), ("b", "P2"), ("i", "A2"), ("i", "A1")],
       lambda E, i, o, r: jline(E, o[0], i[1], i[2], o[1], i[3]), alias=[{0: 0, 1: 1, 2: 2, 3: 3}], pre=lpre)
    op("Fp6::pointAddLineEvalWithoutP", "d_pointAddNoP", [("o", "F6"), ("b", "P2"), ("i", "A2")],
       lambda E, i, o, r: jline(E, o[0], i[1], i[2], o[1], (1, 1)), alias=[{0: 0, 1: 1, 2: 2}], pre=lpre)

    # ---------------------------------------------------------------- group law
    for k in (1, 2):
        f = E.F(k); J = "J%d" % k; Fs = "F" if k == 1 else "F2"; nm = "G%d" % k; cls = "Ec%d" % k
        nn = [N] * k
        zero = const(k, 0); one_ = const(k, 1)

        def jac(E, A, z, k=k, f=f):
            z2 = f.mul(z, z)
            return flat(k, (f.mul(A[0], z2), f.mul(A[1], f.mul(z2, z)), z))

        def rndf(rnd, k=k):
            return rnd() % p if k == 1 else (rnd() % p, rnd() % p)

        def rpt(E, rnd, k=k):
            return E.point1(rnd) if k == 1 else E.point2(rnd, order=False)

        def A(l, k=k, f=f):
            q = pts(k, l)
            if any(c is None for c in (l[2 * k:] if k == 2 else l[2:])):
                return "undefined"
            if q[2] == f.zero:
                return None
            return E.aff(k, q)

        def same(got, exp, what):
            if got == "undefined":
                return "z coordinate of %s is uninitialised" % what
            if got != exp:
                return "%s is not the specified point" % what
            return None
        jd = lambda E, i, o, r, k=k, A=A: same(A(o[0]), E.ecdbl(k, A(i[1])), "double")
        # cases of one argument
        one_arg = [("generic", None, False), ("infinity", lambda E, rnd, nn=nn, zero=zero: [nn + nn + zero], False), ("z=1", lambda E, rnd, nn=nn, one_=one_: [nn + nn + one_], False)]
        for cn, vals, cov in one_arg:
            for drv in ("d_ECDbl%d" % k, "d_%s_dbl" % cls):
                op("%s doubling, %s" % (nm, cn), drv, [("o", J), ("i", J)], jd, vals=vals)
            for drv in ("d_%s_neg" % cls,):
                op("%s negation, %s" % (nm, cn), drv, [("o", J), ("i", J)], lambda E, i, o, r, k=k, A=A: same(A(o[0]), E.ecneg(k, A(i[1])), "negative"), vals=vals)

            def jn(E, i, o, r, k=k, A=A, f=f, H=False):
                q = pts(k, i[1])
                e = A(i[1]) if not H else E.affh(k, q)
                if e is None:
                    return want([0] * (3 * k), o[0], "normalised infinity")
                return want(flat(k, (e[0], e[1], f.one)), o[0], "normalised point")
            op("%s NormalizeJac, %s" % (nm, cn), "d_Norm%d" % k, [("o", J), ("i", J)], jn, vals=vals)
            op("%s NormalizeHom, %s" % (nm, cn), "d_NormH%d" % k, [("o", J), ("i", J)], lambda E, i, o, r, jn=jn: jn(E, i, o, r, H=True), vals=vals)

            def jm(E, i, o, r, k=k, A=A, f=f):
                e = A(i[0])
                if e is None:
                    return None if pts(k, o[0])[2] == f.zero else "normalised infinity is not infinity"
                return want(flat(k, (e[0], e[1], f.one)), o[0], "normalised point")
            op("%s normalize, %s" % (nm, cn), "d_%s_normalize" % cls, [("b", J)], jm, vals=vals)
            op("%s isZero, %s" % (nm, cn), "d_%s_isZero" % cls, [("i", J)], lambda E, i, o, r, A=A: None if bool(r & 255) == (A(i[0]) is None) else "isZero is wrong", vals=vals)
        op("%s clear" % nm, "d_%s_clear" % cls, [("o", J)], lambda E, i, o, r, A=A: same(A(o[0]), None, "cleared point"))

        # cases of two arguments
        def eqpts(E, rnd, sgn=1, k=k, f=f, jac=jac, rndf=rndf, rpt=rpt):
            P = rpt(E, rnd)
            Q = P if sgn > 0 else E.ecneg(k, P)
            return [jac(E, P, rndf(rnd)), jac(E, Q, rndf(rnd))]

        def eqz1(E, rnd, sgn=1, k=k, f=f, rpt=rpt, one_=one_):
            P = rpt(E, rnd)
            Q = P if sgn > 0 else E.ecneg(k, P)
            return [flat(k, P) + one_, flat(k, Q) + one_]

        def eqz2(E, rnd, sgn=1, k=k, f=f, rpt=rpt, one_=one_, jac=jac, rndf=rndf):
            P = rpt(E, rnd)
            Q = P if sgn > 0 else E.ecneg(k, P)
            return [jac(E, P, rndf(rnd)), flat(k, Q) + one_]

        def samey(E, rnd, k=k, f=f, jac=jac, rndf=rndf, rpt=rpt):
            # points (x, y) and (w x, y), w a primitive cube root of one
            P = rpt(E, rnd)
            w = (-1 + E.sqrt1(p - 3)) * E.inv1(2) % p
            return [jac(E, P, rndf(rnd)), jac(E, (f.mulk(P[0], w), P[1]), rndf(rnd))]

        def samez(E, rnd, k=k, f=f, jac=jac, rndf=rndf, rpt=rpt):
            z = rndf(rnd)
            return [jac(E, rpt(E, rnd), z), jac(E, rpt(E, rnd), z)]
        dist = [{0: 0, 1: 1, 2: 2}, {0: 0, 1: 0, 2: 2}, {0: 0, 1: 1, 2: 0}]
        two = [("generic", None, None, True),
               ("P=O", lambda E, rnd, nn=nn, zero=zero: [nn + nn + zero, nn * 3], dist, False),
               ("Q=O", lambda E, rnd, nn=nn, zero=zero: [nn * 3, nn + nn + zero], dist, False),
               ("P=Q=O", lambda E, rnd, nn=nn, zero=zero: [nn + nn + zero, nn + nn + zero], None, False),
               ("P=Q", eqpts, dist, False), ("P=-Q", lambda E, rnd, g=eqpts: g(E, rnd, -1), dist, False),
               ("P=Q, z=1", eqz1, dist, False), ("P=-Q, z=1", lambda E, rnd, g=eqz1: g(E, rnd, -1), dist, False),
               ("P=Q, one z=1", eqz2, dist, False), ("P=-Q, one z=1", lambda E, rnd, g=eqz2: g(E, rnd, -1), dist, False),
               ("equal y", samey, dist, False), ("equal z", samez, dist, False),
               ("z=1", lambda E, rnd, nn=nn, one_=one_: [nn + nn + one_, nn + nn + one_], None, True)]
        for cn, vals, al, cov in two:
            for d, sg in (("d_ECAdd%d" % k, 1), ("d_%s_add" % cls, 1), ("d_%s_opadd" % cls, 1), ("d_%s_sub" % cls, -1), ("d_%s_opsub" % cls, -1)):
                op("%s %s, %s" % (nm, "addition" if sg > 0 else "subtraction", cn), d, [("o", J), ("i", J), ("i", J)],
                   lambda E, i, o, r, k=k, A=A, sg=sg: same(A(o[0]), E.ecadd(k, A(i[1]), A(i[2]) if sg > 0 else E.ecneg(k, A(i[2]))), "sum" if sg > 0 else "difference"),
                   vals=vals, alias=al, cover=cov, undef=True)
            al2 = None if al is None else [{0: 0, 1: 1}]
            for d, sg in (("d_%s_addeq" % cls, 1), ("d_%s_subeq" % cls, -1)):
                op("%s %s=, %s" % (nm, "+" if sg > 0 else "-", cn), d, [("b", J), ("i", J)],
                   lambda E, i, o, r, k=k, A=A, sg=sg: same(A(o[0]), E.ecadd(k, A(i[0]), A(i[1]) if sg > 0 else E.ecneg(k, A(i[1]))), "sum" if sg > 0 else "difference"),
                   vals=vals, alias=al2, cover=cov, undef=True)
            for d, neg in (("d_%s_eq" % cls, 0), ("d_%s_ne" % cls, 1)):
                def je(E, i, o, r, A=A, neg=neg, k=k):
                    if bool(r & 255) != ((A(i[0]) == A(i[1])) != bool(neg)):
                        return "comparison returns the wrong answer"
                    for a in (0, 1):
                        if A(o[a]) != A(i[a]):
                            return "operand %d of the comparison becomes a different point" % a
                op("%s %s, %s" % (nm, "!=" if neg else "==", cn), d, [("b", J), ("b", J)], je, vals=vals, alias=[{0: 0, 1: 1}] + ([{0: 0, 1: 0}] if vals is None else []), cover=True)

        # ------------------------------------------------------ point validation
        def onv(E, rnd, how, k=k, f=f, jac=jac, rndf=rndf, rpt=rpt, one_=one_):
            P = rpt(E, rnd)
            if how == "jac":
                return jac(E, P, rndf(rnd))
            if how == "hom":
                z = rndf(rnd)
                return flat(k, (f.mul(P[0], z), f.mul(P[1], z), z))
            if how == "aff":
                return flat(k, P)
            return flat(k, P) + one_
        b = E.b % p if k == 1 else E.bt

        def near(E, rnd, how, k=k, f=f, jac=jac, rndf=rndf, b=b):
            """points of other curves y^2 = x^3 + b' with the same x or y"""
            x = rndf(rnd); y = rndf(rnd)
            return None
        tw = "EC" if k == 1 else "Twist"
        fn = {"jac": "d_on%sJac3" % tw, "hom": "d_on%sHom3" % tw, "aff": "d_on%sHom2" % tw}
        for how, d in fn.items():
            sh = J if how != "aff" else "A%d" % k

            def jo(E, i, o, r, k=k, how=how):
                q = pts(k, i[0])
                if how == "aff":
                    ok = E.oncurve(k, (q[0], q[1]))
                else:
                    ok = E.oncurve(k, E.aff(k, q) if how == "jac" else E.affh(k, q))
                return None if bool(r & 255) == ok else "returns %d for a point that is %son the curve" % (r & 1, "" if ok else "not ")
            op("%s %s, any" % (nm, d[2:]), d, [("i", sh)], jo, cover=True)
            op("%s %s, on curve" % (nm, d[2:]), d, [("i", sh)], jo, vals=lambda E, rnd, how=how, onv=onv: [onv(E, rnd, how)])
            if how != "aff":
                op("%s %s, on curve z=1" % (nm, d[2:]), d, [("i", sh)], jo, vals=lambda E, rnd, onv=onv: [onv(E, rnd, "z1")])
                op("%s %s, infinity" % (nm, d[2:]), d, [("i", sh)], jo, vals=lambda E, rnd, nn=nn, zero=zero: [nn + nn + zero])
                # off-curve points whose affine image under another convention is on the curve
                op("%s %s, other convention" % (nm, d[2:]), d, [("i", sh)], jo, cover=True, vals=lambda E, rnd, how=how, onv=onv: [onv(E, rnd, "hom" if how == "jac" else "jac")])
            if k == 1 or True:
                # points of the curve with the coefficient of the other group / sign
                def wrongb(E, rnd, how=how, k=k, f=f, jac=jac, rndf=rndf):
                    z = rndf(rnd); P = E.point1(rnd) if k == 1 else E.point2(rnd, order=False)
                    w = rndf(rnd)
                    Q = (f.mul(P[0], f.mul(w, w)), f.mul(P[1], f.mul(w, f.mul(w, w))))
                    return [jac(E, Q, z) if how == "jac" else flat(k, (f.mul(Q[0], z), f.mul(Q[1], z), z)) if how == "hom" else flat(k, Q)]
                op("%s %s, isomorphic curve" % (nm, d[2:]), d, [("i", sh)], jo, vals=wrongb, cover=True)

        def jv(E, i, o, r, k=k, A=A):
            ok = E.oncurve(k, A(i[0]))
            return None if bool(r & 255) == ok else "isValid returns %d for a point that is %son the curve" % (r & 1, "" if ok else "not ")
        vcases = [("any", None), ("on curve", lambda E, rnd, onv=onv: [onv(E, rnd, "jac")]), ("infinity", lambda E, rnd, nn=nn, zero=zero: [nn + nn + zero]),
                  ("homogeneous point", lambda E, rnd, onv=onv: [onv(E, rnd, "hom")])]
        for cn, vals in vcases:
            op("%s isValid, %s" % (nm, cn), "d_%s_isValid" % cls, [("i", J)], jv, vals=vals, cover=True)

        def jset(E, i, o, r, k=k, f=f, n=3, verify=True):
            q = [pts(k, i[j])[0] for j in range(1, n + 1)]
            if n == 2:
                q.append(f.one)
            ok = E.oncurve(k, E.aff(k, q)) if verify else True
            if not ok:
                if r is None or type(r) is not tuple:
                    return "a point that is not on the curve is accepted"
                return None if "runtime_error" in r[1] else "wrong exception type %s" % r[1]
            if type(r) is tuple:
                return "a valid point is rejected (%s)" % r[1]
            return want(flat(k, q), o[0], "stored point")

        def split(l, k=k):
            return [l[i:i + k] for i in range(0, len(l), k)]
        for n, suf in ((2, "2"), (3, "3")):
            vv = [("any", None), ("on curve", (lambda E, rnd, onv=onv, split=split: split(onv(E, rnd, "aff"))) if n == 2 else (lambda E, rnd, onv=onv, split=split: split(onv(E, rnd, "jac"))))]
            if n == 3:
                vv += [("infinity", lambda E, rnd, nn=nn, zero=zero: [nn, nn, zero]), ("homogeneous point", lambda E, rnd, onv=onv, split=split: split(onv(E, rnd, "hom")))]
            for cn, vals in vv:
                for d in ("set", "ctor", "setnv"):
                    dd = "d_%s_%s%s%s" % (cls, d[:3] if d != "ctor" else d, suf, "nv" if d == "setnv" else "")
                    al = [dict((x, x) for x in range(n + 1))]
                    op("%s %s(%d), %s" % (nm, d, n, cn), dd, [("o", J)] + [("i", Fs)] * n,
                       lambda E, i, o, r, jset=jset, n=n, v=(d != "setnv"): jset(E, i, o, r, n=n, verify=v), vals=vals, cover=True, throws=True, undef=True, alias=al)

    # ----------------------------------------------------- Frobenius on the twist
    def jf(E, i, o, r, n, sgn=1):
        q = pts(2, i[1])
        e = E.frobtwist((q[0], q[1]), n)
        if sgn < 0:
            e = E.ecneg(2, e)
        return want(flat(2, e), o[0], "image")
    op("FrobEndOnTwist_1", "d_Frob1", [("o", "A2"), ("i", "A2")], lambda E, i, o, r: jf(E, i, o, r, 1), alias=[{0: 0, 1: 1}])
    op("FrobEndOnTwist_2", "d_Frob2", [("o", "A2"), ("i", "A2")], lambda E, i, o, r: jf(E, i, o, r, 2), alias=[{0: 0, 1: 1}])
    if E.b == 2:
        # on BN254 this is minus the square of Frobenius (eighth power up to the curve's automorphism of order two)
        op("FrobEndOnTwist_8", "d_Frob8", [("o", "A2"), ("i", "A2")], lambda E, i, o, r: jf(E, i, o, r, 2, -1), alias=[{0: 0, 1: 1}])
    else:
        op("FrobEndOnTwist_8", "d_Frob8", [("o", "A2"), ("i", "A2")], lambda E, i, o, r: jf(E, i, o, r, 8), alias=[{0: 0, 1: 1}])

    # ------------------------------------------------------------------- pairing
    def gen(E, rnd, z1, z2, order=True):
        P = E.point1(rnd); Q = E.point2(rnd)
        f1 = E.F(1); f2 = E.F(2)

        def J(k, f, A, z):
            if z == "aff":
                return flat(k, A)
            if z == "one":
                return flat(k, A) + const(k, 1)
            if z == "inf":
                return [N] * (2 * k) + const(k, 0)
            zz = rnd() % p if k == 1 else (rnd() % p, rnd() % p)
            z_2 = f.mul(zz, zz)
            return flat(k, (f.mul(A[0], z_2), f.mul(A[1], f.mul(z_2, zz)), zz))
        return [J(2, f2, Q, z2), J(1, f1, P, z1)]

    def pt(k, l):
        q = pts(k, l)
        return (q[0], q[1]) if len(q) == 2 else E.aff(k, q)
    _pc = {}

    def pair(Q, P):
        if (Q, P) not in _pc:
            _pc[(Q, P)] = elib(E.pairing(Q, P))
        return _pc[(Q, P)]

    def jp(E, i, o, r):
        return want(pair(pt(2, i[1]), pt(1, i[2])), o[0], "pairing value")
    al = [{0: 0, 1: 1, 2: 2}]
    op("opt_atePairing(affine)", "d_pairing_aff", [("o", "F12"), ("i", "A2"), ("i", "A1")], jp, vals=lambda E, rnd: gen(E, rnd, "aff", "aff"), cover=True, alias=al, use=("line", "sparse", "fexp"))
    for z1 in ("one", "any", "inf"):
        for z2 in ("one", "any", "inf"):
            v = lambda E, rnd, z1=z1, z2=z2: gen(E, rnd, z1, z2)
            if z1 == "inf" or z2 == "inf" or z1 != z2 or z1 == "any":
                op("opt_atePairingJac, z of P %s, z of Q %s" % (z1, z2), "d_pairing_jac", [("o", "F12"), ("i", "J2"), ("i", "J1")], jp, vals=v, cover=True, alias=al, use=("pair",))
                op("opt_atePairing(Ec2, Ec1), z of P %s, z of Q %s" % (z1, z2), "d_pairing_ec", [("o", "F12"), ("b", "J2"), ("b", "J1")], jp, vals=v, cover=True, alias=al, use=("pair",))
    num = lambda c: c[0] if type(c) is tuple else c
    finite = lambda E, g: all(any(num(c) % p for c in l[4:]) for l in g if len(l) == 6)   # the precomputation takes points other than infinity
    for z2 in ("one", "any"):
        op("precomputeG2+millerLoop, z of Q %s" % z2, "d_prepair", [("o", "F12"), ("i", "J2"), ("i", "A1")], jp, vals=lambda E, rnd, z2=z2: gen(E, rnd, "aff", z2), cover=True, alias=al, use=("line", "sparse", "fexp"), pre=finite)
    op("precomputeG2+millerLoop2", "d_prepair2", [("o", "F12"), ("i", "J2"), ("i", "A1"), ("i", "J2"), ("i", "A1")],
       lambda E, i, o, r: want(elib(E.m12(flib(pair(pt(2, i[1]), pt(1, i[2]))), flib(pair(pt(2, i[3]), pt(1, i[4]))))), o[0], "product of pairings"),
       vals=lambda E, rnd: gen(E, rnd, "aff", "any") + gen(E, rnd, "aff", "one"), cover=True, alias=[dict((x, x) for x in range(5))], use=("line", "sparse", "fexp"), pre=finite)


# ------------------------------------------------ polynomials over Fp2
def _trim(f):
    while f and f[-1] == (0, 0):
        f.pop()
    return f


def _pmod(E, f, g):
    f = list(f)
    iv = E.inv2(g[-1])
    while len(f) >= len(g):
        c = E.m2(f[-1], iv)
        if c != (0, 0):
            d = len(f) - len(g)
            for i, x in enumerate(g):
                f[d + i] = E.s2(f[d + i], E.m2(c, x))
        f.pop()
    return _trim(f)


def _pquo(E, f, g):
    f = list(f); q = []
    iv = E.inv2(g[-1])
    while len(f) >= len(g):
        c = E.m2(f[-1], iv)
        q.append(c)
        d = len(f) - len(g)
        for i, x in enumerate(g):
            f[d + i] = E.s2(f[d + i], E.m2(c, x))
        f.pop()
    return q[::-1]


def _pgcd(E, f, g):
    f = _trim(list(f)); g = _trim(list(g))
    while g:
        f, g = g, _pmod(E, f, g)
    return f


def _pmulmod(E, f, g, m):
    r = [(0, 0)] * (len(f) + len(g) - 1) if f and g else []
    for i, x in enumerate(f):
        if x != (0, 0):
            for j, y in enumerate(g):
                r[i + j] = E.a2(r[i + j], E.m2(x, y))
    return _pmod(E, r, m)


def _ppow(E, f, n, m):
    r = [(1, 0)]
    for b in bin(n)[2:]:
        r = _pmulmod(E, r, r, m)
        if b == "1":
            r = _pmulmod(E, r, f, m)
    return r


def root2(E, f, rnd):
    """a root of f in Fp2, or None"""
    f = _trim(list(f))
    if len(f) < 2:
        return None
    if len(f) > 2:
        h = _ppow(E, [(0, 0), (1, 0)], E.p * E.p, f)
        h = h + [(0, 0)] * (2 - len(h))
        h[1] = E.s2(h[1], (1, 0))
        f = _pgcd(E, f, h)
    while len(f) > 2:
        h = _ppow(E, [(rnd() % E.p, rnd() % E.p), (1, 0)], (E.p * E.p - 1) // 2, f)
        if not h:
            continue
        h[0] = E.s2(h[0], (1, 0))
        g = _pgcd(E, f, h)
        if 1 < len(g) < len(f):
            f = g if len(g) <= len(f) // 2 + 1 else _pquo(E, f, g)
    return E.n2(E.m2(f[0], E.inv2(f[1]))) if len(f) == 2 else None


_g2z = {}


def g2zero_elem(E, rnd):
    """element of the cyclotomic subgroup with g2 = 0 (library layout)"""
    n0 = rnd()
    if (E.p, n0) in _g2z:
        return list(_g2z[(E.p, n0)])
    i2 = E.inv1(2)

    def elem(g4, X):
        g3 = E.k2(E.a2(E.m2(E.xi, E.m2(X, X)), E.k2(E.m2(g4, g4), 3)), i2)
        g1 = E.m2(E.k2(E.m2(g4, X), 2), E.inv2(g3))
        g0 = E.a2(E.m2(E.s2(E.k2(E.m2(g1, g1), 2), E.k2(E.m2(g3, g4), 3)), E.xi), (1, 0))
        return [c for q in (g0, g4, g3, (0, 0), g1, X) for c in q], g3
    DEG = 24
    while True:
        g4 = (rnd() % E.p, rnd() % E.p)
        xs = [(i + 1, 0) for i in range(DEG + 1)]
        ys = []
        for x in xs:
            l, g3 = elem(g4, x)
            f = E.fromlib12(l)
            d = [E.s2(u, v) for u, v in zip(E.m12(E.frob12(f, 4), f), E.frob12(f, 2))]
            k = E.pow2(g3, 4)
            ys.append([E.m2(k, u) for u in d])
        # Newton interpolation of the six components
        g = None
        for c in range(6):
            co = [y[c] for y in ys]
            for j in range(1, len(xs)):
                for i in range(len(xs) - 1, j - 1, -1):
                    co[i] = E.m2(E.s2(co[i], co[i - 1]), E.inv2(E.s2(xs[i], xs[i - j])))
            f = []
            for j in range(len(xs) - 1, -1, -1):
                f = [(0, 0)] + f
                for i in range(len(f) - 1):
                    f[i] = E.s2(f[i], E.m2(xs[j], f[i + 1]))
                f[0] = E.a2(f[0], co[j])
            f = _trim(f)
            assert len(f) <= DEG, "degree bound"
            if f:
                g = f if g is None else _pgcd(E, g, f)
        for _ in range(1):
            X = root2(E, g, rnd) if g else None
            if X is None or X == (0, 0):
                continue
            l, g3 = elem(g4, X)
            f = E.fromlib12(l)
            if g3 != (0, 0) and E.m12(E.frob12(f, 4), f) == E.frob12(f, 2) and f[0] != (0, 0):
                _g2z[(E.p, n0)] = tuple(l)
                return l
