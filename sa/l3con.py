"""Contracts of upper-level functions for their callers: a call is replaced by
fresh canonical results satisfying the specification (each contract is proved
separately, by the operations of l3ops.py).  Where the specification leaves a
factor free (the scale of a line, of a homogeneous point) it is drawn at random."""
import re
import spec
from dom import FV, AnalysisError
from irx import DECLINE
from l3ops import pts, flat, fl


def models(w, E, only=None):
    I = w.I; p = E.p
    cnt = [0]

    def rnd():
        cnt[0] += 1
        return I.rand("contract#%d" % cnt[0])

    def get(S, a, n, loc):
        out = []
        for q in range(n):
            v = I.rd(S, a + 32 * q, 4, loc)
            if v.lo < 0 or v.hi >= p:
                l, h = I.D.rng2(v.p)
                if l < 0 or h >= p:
                    return None
            r = I.ring(v.p, S)
            if r is None:
                return None
            out.append(r * E.Ri % p)
        return out

    def put(S, a, l, loc, lazy=None):
        for q, c in enumerate(l):
            hi = (lazy or {}).get(q, 1) * (p - 1)
            r = c * E.R % p
            v = I.newval("c%d" % len(I.D.atoms), 0, hi, 4, r) if r or hi >= p else FV({}, 0, 0, 4)
            I.wr(S, a + 32 * q, v, loc)

    def f2r():
        return (rnd() % p, rnd() % p)

    def sparse(g):
        q = pts(2, g); z = (0, 0)
        return [q[0], z, z, q[1], q[2], z]

    def line(A, B, P, k):
        c = E.line(A, B, P)
        return fl([E.m2(k, x) for x in (E.m2(c[3], E.xi), c[0], c[1])])

    def hom(A):
        z = f2r()
        return flat(2, (E.m2(A[0], z), E.m2(A[1], z), z))

    def lineop(dbl, withp):
        def h(S, args, loc):
            a = list(args)
            l, T = a[0], a[1]
            Q = None if dbl else a[2]
            P = a[-1] if withp else None
            t = get(S, T, 6, loc)
            q = None if Q is None else get(S, Q, 4, loc)
            pp = (1, 1) if P is None else get(S, P, 2, loc)
            if t is None or pp is None or (Q is not None and q is None):
                return DECLINE
            A = E.affh(2, pts(2, t))
            if A is None or not E.oncurve(2, A):
                return DECLINE
            B = A if q is None else tuple(pts(2, q)[:2])
            if not E.oncurve(2, B) or (q is not None and B[0] == A[0]):
                return DECLINE
            k = f2r()
            put(S, l, line(A, B, pp, k), loc, {4: 3, 5: 3} if dbl and not withp else None)
            put(S, T, hom(E.ecdbl(2, A) if dbl else E.ecadd(2, A, B)), loc)
            return None
        return h

    def m024(S, args, loc):
        f = get(S, args[0], 12, loc); g = get(S, args[1], 6, loc)
        if f is None or g is None:
            return DECLINE
        put(S, args[0], E.tolib12(E.m12(E.fromlib12(f), sparse(g))), loc)

    def m024s(S, args, loc):
        f = get(S, args[1], 6, loc); g = get(S, args[2], 6, loc)
        if f is None or g is None:
            return DECLINE
        put(S, args[0], E.tolib12(E.m12(sparse(f), sparse(g))), loc)

    def fexp(S, args, loc):
        f = get(S, args[0], 12, loc)
        if f is None:
            return DECLINE
        put(S, args[0], E.tolib12(E.finalexp(E.fromlib12(f))), loc)

    def pair(S, args, loc):
        Q = get(S, args[1], 4, loc); P = get(S, args[2], 2, loc)
        if Q is None or P is None:
            return DECLINE
        Q = tuple(pts(2, Q)[:2]); P = tuple(P)
        if not E.oncurve(2, Q) or not E.oncurve(1, P) or not E.inorder(Q):
            return DECLINE
        put(S, args[0], E.tolib12(E.pairing(Q, P)), loc)
    F6 = r"bn::Fp6T<bn::Fp2T<mie::Fp>>::"
    D12 = r"bn::Fp12T<bn::Fp6T<bn::Fp2T<mie::Fp>>>::"
    T = {
        "line": [(F6 + "pointAddLineEval", r"\(", lineop(False, True)), (F6 + "pointAddLineEvalWithoutP", r"\(", lineop(False, False)),
                 (F6 + "pointDblLineEval", None, lineop(True, True)), (F6 + "pointDblLineEvalWithoutP", None, lineop(True, False))],
        "sparse": [(D12 + "Dbl::mul_Fp2_024", None, m024), (D12 + "Dbl::mul_Fp2_024_Fp2_024", r"\(", m024s)],
        "fexp": [(D12 + "final_exp()", "", fexp)],
        "pair": [("void bn::opt_atePairing<mie::Fp>", r"\(", pair)],
    }
    for k in only or T:
        for nm, suf, h in T[k]:
            if suf is None:
                try:
                    a = spec.slot_value(w, nm)
                except KeyError:
                    continue
                n = w.m.fbyaddr.get(a)
                if n is not None:
                    I.models[n] = h
                else:
                    I.code.summ[a] = h
            else:
                for d, n in w.m.dem.items():
                    if re.match(re.escape(nm) + suf, d):
                        I.models[n] = h
