"""Upper-level operations: analysed with the contracts of the lower levels
(each contract is itself an obligation elsewhere) and compared, per partition,
with the reference of ref.py by random interpretation.

An operation is described by its argument shapes and a judge: given the field
values of the inputs (plain integers, after the partition's equations) and the
values of the outputs, the judge returns None or a description of the error."""
import re, time, copy
import spec, ref
LIMIT = 200          # seconds per strategy
from dom import *
from dom import W, FV, UNDEF, AnalysisError, pconst, psub, padd, pscale
from irx import Violation, PathEnd, locstr, SH, OFFM

SH3 = {"F": 1, "F2": 2, "F6": 6, "F12": 12, "P1": 3, "P2": 6, "A1": 2, "A2": 4, "J1": 3, "J2": 6}


class L3:
    def __init__(self, name, drv, args, judge, noalias=(), pre=None, ret=False, hi=None, vals=None, note="", alias=None, cover=False, slots=None, undef=False, throws=False, lazy=None, use=None):
        self.pre = pre            # pre(E, operands): within the operation's domain?
        self.use = use            # upper-level contracts to use (l3con.py)
        self.name = name; self.drv = drv
        self.args = args          # [(mode, shape)]  mode in i (input) o (output) b (both) or int constant
        self.judge = judge        # judge(E, ins, outs, ret) -> None | str ; ins/outs: lists of lists of ints
        self.noalias = noalias    # pairs of argument positions that may not be the same object
        self.vals = vals          # vals(E, rnd) -> list of input component lists (constrained inputs), or None
        self.alias = alias        # explicit list of sharing patterns
        self.cover = cover        # partitions that cannot be sampled here are covered by another case
        self.slots = slots        # extra contracts to install
        self.undef = undef        # result coordinates may be left unset (judge sees None)
        self.lazy = lazy or {}    # {argument: {component: multiple of p it may reach}}
        self.throws = throws      # the judge accepts exceptions: ret = ("throw", type)


# ------------------------------------------------------------ Fp level models
def fpmodels(w):
    """contracts of the Fp-level functions that are not reached through slots"""
    I = w.I; D = I.D
    C = I.p - 1
    R2 = pow(2, 512, I.p)

    def val(S, a, loc, what):
        v = I.rd(S, a, 4, loc)
        if v.lo < 0 or v.hi > C:
            l, h = D.rng2(v.p)
            if l < 0 or h > C:
                raise Violation("range", "operand of %s is not a canonical residue" % what, loc)
            v = FV(v.p, max(l, 0), min(h, C), 4, v.limbs)
        return v

    def m_inv(S, args, loc):
        v = val(S, args[1], loc, "Fp::inv")
        if I.ring(v.p, S) == 0:
            S.user["inv0"] = loc
            q = I.fld({}, C)
        else:
            k = ("rat", pkey(v.p))
            i = I.fldc.get(k)
            if i is None:
                i = D.atom("r%d" % len(D.atoms), 0, C, "rat", v.p)
                I.fldc[k] = i
            q = I.fld({(i,): R2}, C, S=S)
        I.wr(S, args[0], q, loc)

    def m_isz(S, args, loc):
        return I.fveq(S, val(S, args[0], loc, "isZero"), FV({}, 0, 0, 4))

    def m_eq(S, args, loc):
        return I.fveq(S, val(S, args[0], loc, "=="), val(S, args[1], loc, "=="))

    def m_ne(S, args, loc):
        r = m_eq(S, args, loc)
        return D.bnot(r) if type(r) is not int else 1 - r
    tab = {"mie::Fp::inv(mie::Fp&, mie::Fp const&)": m_inv, "mie::Fp::isZero() const": m_isz,
           "mie::Fp::operator==(mie::Fp const&) const": m_eq, "mie::Fp::operator!=(mie::Fp const&) const": m_ne}
    for d, h in tab.items():
        n = w.m.dem.get(d)
        if n:
            I.models[n] = h


def refine(w, tb):
    """tighter result bound of Fp2Dbl::square, used by callers when it is proved"""
    op = tb["Fp2Dbl::square"]
    loose = op.fn

    def tight(x):
        r = loose(x)
        for q in r:
            q.hi = min(q.hi, 9 * w.I.p ** 2 // 4)
        return r
    op.fn = tight
    if spec.slot_value(w, op.slot) in w.m.fbyaddr:
        d = op.drv[-1]
    else:
        d = op.drv[0]
    try:
        r = spec.check_best(w, op, d)
        ok = not r.viol and not r.err
    except (Violation, KeyError):
        ok = False
    if not ok:
        op.fn = loose


def refine0(w, tb):
    """contracts with weaker preconditions (operands that are not canonical),
    used when they are proved for the implementation in use"""
    for n in ("Fp::sub", "Fp::mul", "Fp2::mul_Fp_0"):
        op = tb[n + " (wide)"]
        if n[:4] == "Fp2:":
            spec.install(w, [k for k in tb if tb[k].slot and tb[k].level < 1 and k[:4] == "Fp::"], tb)
        r = spec.check_best(w, op, op.drv[0])
        if not r.viol and not r.err:
            tb[n].wide = spec.contract(w.I, op)


def install(w, tb, upto=4):
    refine0(w, tb)
    spec.install(w, [n for n in tb if tb[n].slot and tb[n].level < 1], tb)
    if upto > 1:
        refine(w, tb)
    spec.install(w, [n for n in tb if tb[n].slot and tb[n].level < upto], tb)
    fpmodels(w)


# ------------------------------------------------------------------- checking
class Result:
    def __init__(self):
        self.paths = 0; self.checks = 0; self.viol = []; self.err = None; self.loc = None; self.unexp = set(); self.taken = set(); self.eqs = []


def rndfor(I, tag):
    n = [0]

    def f():
        n[0] += 1
        return I.rand("%s#%d" % (tag, n[0]))
    return f


def patterns(op):
    if op.alias is not None:
        return op.alias
    args = op.args
    idx = [i for i, a in enumerate(args) if type(a) is tuple]
    types = [args[i][1] for i in idx]
    na = tuple((idx.index(a), idx.index(b)) for a, b in op.noalias)
    out = []
    for pat in spec.alias_patterns(1, types, na):
        # two distinct results may not share; everything else may
        d = {}
        ok = True
        for i, b in zip(idx, pat):
            if b in d and args[i][0] != "i" and args[d[b]][0] != "i":
                ok = False
            if b not in d or args[i][0] != "i":
                d[b] = i
        if ok:
            full = {}
            for i, b in zip(idx, pat):
                full[i] = b
            out.append(full)
    return out


def check(w, E, op):
    I = w.I; D = I.D
    I.l3 = True
    R = Result()
    p = I.p
    Rm = E.R; Ri = E.Ri
    if op.use:
        import l3con
        l3con.models(w, E, op.use)
    for pat in patterns(op):
        S = w.S.fork()
        I.l3base = len(D.atoms)
        D.asm = {}; D.facts = spec.Facts()
        S.asm = {}; S.facts = D.facts
        S.user = dict(S.user)
        objs = {}
        addrs = []
        ins = {}
        given = op.vals(E, rndfor(I, op.name)) if op.vals else None
        gi = 0
        for j, a in enumerate(op.args):
            if type(a) is not tuple:
                addrs.append(a)
                continue
            mode, sh = a
            n = SH3[sh]
            b = pat[j] if isinstance(pat, dict) else j
            if b not in objs:
                objs[b] = S.new(32 * n, "arg%d" % j)
            addrs.append(objs[b])
        done = {}
        byres = {}
        atoms = {}; inpos = []
        for j, a in enumerate(op.args):
            if type(a) is not tuple or a[0] == "o":
                continue
            n = SH3[a[1]]
            g = None
            if given is not None:
                g = given[gi]; gi += 1
            inpos.append(j)
            if addrs[j] in done:
                ins[j] = done[addrs[j]]
                continue
            vs = []
            for q in range(n):
                res = None
                if g is not None and g[q] is not None and type(g[q]) is not tuple:
                    res = g[q] * Rm % p
                if res == 0:
                    v = FV({}, 0, 0, 4)
                elif res is not None and res in byres:
                    v = byres[res]
                else:
                    v = I.newval("%s.%d.%d" % (op.name, j, q), 0, p - 1, 4, res) if not (g is not None and type(g[q]) is tuple) else FV(pconst(g[q][0] * Rm % p), g[q][0] * Rm % p, g[q][0] * Rm % p, 4)
                if res is not None:
                    byres[res] = v
                if len(v.p) == 1 and (m := next(iter(v.p))) and len(m) == 1:
                    atoms[m[0]] = (len(inpos) - 1, q)
                I.wr(S, addrs[j] + 32 * q, v)
                vs.append(v.p)
            ins[j] = vs
            done[addrs[j]] = vs
        where = "%s via %s%s" % (op.name, op.drv, sharing(op, pat))
        n0 = len(I.unexplored); n1 = len(I.unexq)
        I.dirs = set()
        try:
            outs = w.R.call(S, op.drv, list(addrs))
        except Violation as e:
            R.viol.append((e.kind, "%s: %s" % (where, e.msg), locstr(w.m, e.loc)))
            continue
        R.unexp.update(I.unexplored[n0:])
        R.eqs += [(x, d, atoms) for x, d in I.unexq[n1:]]
        R.taken |= I.dirs
        work = list(outs)
        while work:
            T1 = work.pop()
            D.asm = T1.asm; D.facts = T1.facts
            if T1.result[0] == "end" and T1.result[1] == "infeasible":
                continue
            R.paths += 1
            ret = T1.result[1] if T1.result[0] == "ret" else None
            if op.throws and T1.result[:2] == ("end", "throw"):
                ret = ("throw", T1.result[2])
            elif T1.result[0] != "ret":
                R.viol.append(("noreturn", "%s: does not return (%s)" % (where, T1.result[1]), locstr(w.m, T1.frames_at_end[-1][1]) if getattr(T1, "frames_at_end", None) else "?"))
                continue
            if isinstance(ret, W):
                c = I.cond(T1, ret)
                if type(c) is int:
                    ret = c
                else:
                    for v in (0, 1):
                        T2 = T1.fork()
                        ok = I.assume(T2, c[0], v)
                        if ok:
                            T2.result = ("ret", v ^ (1 if c[1] else 0))
                            work.append(T2)
                    R.paths -= 1
                    continue
            iv = {}
            bad = None
            for j, vs in ins.items():
                l = []
                for q in vs:
                    r = I.ring(D.subst(q, D.asm) if D.asm else q, T1)
                    l.append(r * Ri % p)
                iv[j] = l
            ov = {}
            for j, a in enumerate(op.args):
                if type(a) is not tuple:
                    continue
                n = SH3[a[1]]
                l = []
                for q in range(n):
                    if a[0] == "i" and not any(addrs[j] == addrs[k] for k in range(len(op.args)) if type(op.args[k]) is tuple and op.args[k][0] != "i"):
                        try:
                            v = I.rd(T1, addrs[j] + 32 * q)
                        except Violation as e:
                            bad = ("input", "input %d is destroyed: %s" % (j, e.msg)); break
                        d = psub(v.p, ins[j][q])
                        if D.asm:
                            d = D.subst(d, D.asm)
                        if d and D.expand(d):
                            bad = ("input", "input %d is modified" % j)
                            break
                        continue
                    if a[0] == "i":
                        continue
                    R.checks += 1
                    try:
                        v = I.rd(T1, addrs[j] + 32 * q)
                    except Violation as e:
                        if op.undef and e.kind == "undef":
                            l.append(None); continue
                        bad = (e.kind, "result component %d of argument %d: %s" % (q, j, e.msg)); break
                    r = I.ring(v.p, T1)
                    if r is None:
                        r = I.ring(D.expand(v.p), T1)
                    if r is None:
                        bad = ("value", "residue of result component %d of argument %d is not determined" % (q, j)); break
                    lo, hi = v.lo, v.hi
                    cap = op.lazy.get(j, {}).get(q, 1) * (p - 1)
                    if hi > cap or lo < 0:
                        l2, h2 = D.rng2(v.p)
                        if l2 < 0 or h2 > cap:
                            bad = ("value", "result component %d of argument %d may not be canonical" % (q, j)); break
                    l.append(r * Ri % p)
                ov[j] = l
                if bad:
                    break
            if not bad:
                R.checks += 1
                m = op.judge(E, iv, ov, ret)
                if m:
                    bad = ("value", m)
            if bad:
                R.viol.append((bad[0], "%s: %s" % (where, bad[1]), pathstr(w, T1)))
    return R


def check_best(w, E, op, quick=False):
    """several sound strategies; the first one that proves the operation decides"""
    first = None
    lim = LIMIT
    for eager, raw in ((True, False),) if quick else ((True, False), (False, False), (True, True)):
        t0 = time.time()
        w.I.eager = eager; w.I.rawfallback = raw; w.I.deadline = t0 + lim
        try:
            r = check(w, E, op)
        except AnalysisError as e:
            r = Result(); r.err = "AnalysisError: " + str(e); r.loc = getattr(e, "where", None)
        finally:
            w.I.eager = False; w.I.rawfallback = False; w.I.deadline = None
        if not r.viol and not r.err:
            return r
        lim = min(lim, max(40, 8 * (time.time() - t0)))
        if first is None:
            first = r
    return r if first.err and not r.err else first


REFINE = 16          # refinements per case
DEPTH = 2


def member(w, E, op, tape):
    """operands of the class for a tape of parameters, every component a number"""
    shapes = [SH3[a[1]] for a in op.args if type(a) is tuple and a[0] != "o"]
    g = op.vals(E, tape) if op.vals else [[None] * n for n in shapes]
    return [[tape() if c is None else c for c in l] for l in g]


def refinements(w, E, op, R, seen):
    """members of the class that satisfy one of the equations its generic member does not"""
    import roots
    I = w.I; p = I.p
    num = lambda c: c[0] if type(c) is tuple else c
    out = []
    noasm = {}

    class Empty: pass
    for x, d, atoms in R.eqs:

        def value(g):
            S = Empty(); S.user = {"ov": {a: num(g[j][q]) * E.R % p for a, (j, q) in atoms.items()}}
            old = I.D.asm
            I.D.asm = noasm
            try:
                return I.ring(d, S)
            finally:
                I.D.asm = old
        op0, base, fix = getattr(op, "root", None) or (op, lambda n: I.rand("tape&%d" % n), {})

        def at(k=None, v=None, base=base):
            f = dict(fix)
            if k is not None:
                f[k] = v
            return member(w, E, op0, roots.Tape(base, f)), (op0, base, f)
        t = roots.Tape(base, fix); g0 = member(w, E, op0, t)
        v0 = value(g0)
        key = (x, min(v0, p - v0) if v0 is not None else None, tuple(sorted(fix.items())))
        if v0 is None or key in seen:
            continue
        seen[key] = 0
        nd = t.n
        sens = []
        for k in range(nd):
            if k not in fix and value(at(k, 12345)[0]) != v0:
                sens.append(k)
        found = []
        # the condition constrains one component that is itself a parameter
        S = Empty(); S.user = {}
        old = I.D.asm; I.D.asm = noasm
        try:
            e = I.symring(S, d)
        finally:
            I.D.asm = old
        us = {i for m in e for i in m} if e is not None else ()
        if len(us) == 1:
            f = [0] * (1 + max(map(len, e)))
            for m, c in e.items():
                f[len(m)] += c
            for r in roots.roots(f, p):
                for k in sens:
                    for salt in range(3):
                        g = at(k, r * E.Ri % p, base if not salt else (lambda n, salt=salt: I.rand("tape&%d&%d" % (n, salt))))
                        if value(g[0]) == 0:
                            found.append(g)
                            break
                    else:
                        continue
                    break
        if not found:
            for k in sens:
                f = roots.interpolate(lambda t: value(at(k, t)[0]), p)
                if f:
                    for r in roots.roots(f, p):
                        g = at(k, r)
                        if value(g[0]) == 0:
                            found.append(g)
                if found:
                    break
        for g in found[:4]:
            k = (g[1][1] is not None and base is not g[1][1], tuple(sorted(g[1][2].items())))
            if k not in seen and (op0.pre is None or op0.pre(E, g[0])):
                seen[k] = 1
                out.append(g)
    return out


def refined(w, E, op, R):
    """the class's members on the partitions its generic member does not reach"""
    work = [(op, R, 0)]
    seen = {}
    out = []
    while work:
        o, r, dep = work.pop(0)
        for g, root in refinements(w, E, o, r, seen):
            if len(out) >= REFINE:
                return out
            q = copy.copy(op)
            q.vals = lambda E, rnd, g=g: [list(l) for l in g]; q.root = root
            q.name = "%s, special %d" % (op.name, len(out) + 1)
            t = check_best(w, E, q)
            out.append((q, t))
            if t.viol or t.err:
                return out
            if dep + 1 < DEPTH:
                work.append((q, t, dep + 1))
    return out


def check_group(w, E, ops):
    """the cases of one function: a branch that one case cannot follow (its
    condition is a further equation on the case's inputs) must be followed in
    another one"""
    rs = []
    for o in ops:   # once one case fails, the other ones need not be pursued further
        rs.append((o, check_best(w, E, o, quick=any(r.viol or r.err for q, r in rs))))
    if not any(r.viol or r.err for o, r in rs):
        for o, r in rs[:]:
            rs += refined(w, E, o, r)
    taken = set()
    for o, r in rs:
        taken |= r.taken
    for o, r in rs:
        q = [x for x in r.unexp if x[0] not in taken]
        if q and not r.err:
            r.err = "AnalysisError: %s: a branch is not covered by any case (its condition is an equation that could not be solved)" % o.name
            r.loc = locstr(w.m, q[0][1])
    return rs


def pathstr(w, S):
    D = w.I.D
    l = []
    for a, v, loc in S.path[-4:]:
        l.append("%s is %s" % (locstr(w.m, loc), "true" if v else "false"))
    return "path: " + "; ".join(l) if l else "straight-line"


def sharing(op, pat):
    if not isinstance(pat, dict):
        return ""
    s = "".join("ABCDEFG"[pat[i]] for i in sorted(pat))
    return ", argument sharing " + s


# ---------------------------------------------------------------- descriptions
def want(exp, got, what="result"):
    if list(exp) == list(got):
        return None
    for i, (a, b) in enumerate(zip(exp, got)):
        if a != b:
            return "%s component %d differs from the specified value" % (what, i)
    return "%s has wrong length" % what


def pr(l): return [tuple(l[i:i + 2]) for i in range(0, len(l), 2)]
def fl(l): return [c for x in l for c in x]


def cyclo(E, rnd):
    """random element of the order-Phi12(p) subgroup, library layout"""
    return E.tolib12(E.easy12([(rnd() % E.p, rnd() % E.p) for _ in range(6)]))


def table(E):
    L = []
    p = E.p

    def op(*a, **k):
        L.append(L3(*a, **k))

    def m12(x, y): return E.tolib12(E.m12(E.fromlib12(x), E.fromlib12(y)))
    def m6(x, y): return emb6inv(E.m12(E.emb6(x), E.emb6(y)))
    def emb6inv(f): return [c for i in (0, 2, 4) for c in f[i]]

    # ------------------------------------------------ operators and small forms
    def bin1(name, drv, f, sh="F", **k):
        op(name, drv, [("o", sh), ("i", sh), ("i", sh)], lambda E, i, o, r: want(f(i[1], i[2]), o[0]), **k)

    def acc(name, drv, f, sh="F", **k):
        op(name, drv, [("b", sh), ("i", sh)], lambda E, i, o, r: want(f(i[0], i[1]), o[0]), **k)
    vadd = lambda x, y: [(a + b) % p for a, b in zip(x, y)]
    vsub = lambda x, y: [(a - b) % p for a, b in zip(x, y)]
    vmul = lambda x, y: [a * b % p for a, b in zip(x, y)]
    bin1("Fp operator+", "d_Fp_opadd", vadd)
    bin1("Fp operator-", "d_Fp_opsub", vsub)
    bin1("Fp operator*", "d_Fp_opmul", vmul)
    bin1("Fp operator/", "d_Fp_opdiv", lambda x, y: [x[0] * E.inv1(y[0]) % p])
    acc("Fp operator/=", "d_Fp_diveq", lambda x, y: [x[0] * E.inv1(y[0]) % p])
    op("Fp::inverse()", "d_Fp_inverse", [("b", "F")], lambda E, i, o, r: want([E.inv1(i[0][0])], o[0]))

    def jroot(E, i, o, r):
        if not r & 255:
            return "finds no root of a square" if E.issq(i[1][0]) else None
        return None if o[0][0] is not None and o[0][0] ** 2 % p == i[1][0] else "the result is not a square root"

    def sq(sign):
        def f(E, rnd):
            return [[sign * rnd() ** 2 % p]]
        return f
    for k in range(3):
        op("Fp::squareRoot of a square" + " #%d" % k * (k > 0), "d_Fp_squareRoot", [("o", "F"), ("i", "F")], jroot, vals=sq(1), undef=True, cover=True)
    op("Fp::squareRoot of a non-square", "d_Fp_squareRoot", [("o", "F"), ("i", "F")], jroot, vals=sq(-1), undef=True, cover=True)
    op("Fp::squareRoot of zero", "d_Fp_squareRoot", [("o", "F"), ("i", "F")], jroot, vals=lambda E, rnd: [[0]], undef=True, cover=True)
    acc("Fp operator+=", "d_Fp_addeq", vadd)
    acc("Fp operator-=", "d_Fp_subeq", vsub)
    acc("Fp operator*=", "d_Fp_muleq", vmul)
    op("Fp unary -", "d_Fp_opneg", [("o", "F"), ("i", "F")], lambda E, i, o, r: want(vsub([0], i[1]), o[0]))
    op("Fp::square", "d_Fp_square", [("o", "F"), ("i", "F")], lambda E, i, o, r: want(vmul(i[1], i[1]), o[0]))
    acc("Fp2 operator+=", "d_Fp2_addeq", vadd, "F2")
    acc("Fp2 operator-=", "d_Fp2_subeq", vsub, "F2")
    acc("Fp2 operator*=", "d_Fp2_muleq", lambda x, y: E.m2(tuple(x), tuple(y)), "F2")
    op("Fp2::mul_x", "d_Fp2_mul_x", [("b", "F2")], lambda E, i, o, r: want(E.m2(tuple(i[0]), (0, 1)), o[0]))
    op("Fp2::mul_Fp_1", "d_Fp2_mul_Fp_1", [("b", "F2"), ("i", "F")], lambda E, i, o, r: want(E.m2(tuple(i[0]), (0, i[1][0])), o[0]))
    op("Fp6::mul_Fp_b", "d_Fp6_mul_Fp_b", [("b", "F6"), ("i", "F")], lambda E, i, o, r: want(i[0][:2] + vmul(i[0][2:4], i[1] * 2) + i[0][4:], o[0]))
    op("Fp6::mul_Fp_c", "d_Fp6_mul_Fp_c", [("b", "F6"), ("i", "F")], lambda E, i, o, r: want(i[0][:4] + vmul(i[0][4:], i[1] * 2), o[0]))
    op("mulFp6_24_Fp_01", "d_mulFp6_24_Fp_01", [("b", "F6"), ("i", "A1")], lambda E, i, o, r: want(i[0][:2] + vmul(i[0][2:4], [i[1][1]] * 2) + vmul(i[0][4:], [i[1][0]] * 2), o[0]))
    for sh, t in (("F", "Fp"), ("F2", "Fp2"), ("F6", "Fp6"), ("F12", "Fp12")):
        op(t + "::clear", "d_%s_clear" % t, [("o", sh)], lambda E, i, o, r: want([0] * len(o[0]), o[0]))
        op(t + "::isZero", "d_%s_isZero" % t, [("i", sh)], lambda E, i, o, r: None if bool(r & 255) == (not any(i[0])) else "isZero returns %s" % r)
        op(t + " ==", "d_%s_eq" % t, [("i", sh), ("i", sh)], lambda E, i, o, r: None if bool(r & 255) == (i[0] == i[1]) else "operator== returns %s" % r)
        op(t + " !=", "d_%s_ne" % t, [("i", sh), ("i", sh)], lambda E, i, o, r: None if bool(r & 255) == (i[0] != i[1]) else "operator!= returns %s" % r)
    # ------------------------------------------------------------- inversion
    op("Fp2::inverse", "d_Fp2_inverse", [("b", "F2")], lambda E, i, o, r: want(E.inv2(tuple(i[0])), o[0]))
    op("Fp6::inverse", "d_Fp6_inverse", [("b", "F6")], lambda E, i, o, r: want(emb6inv(E.inv12(E.emb6(i[0]))), o[0]))
    op("Fp12::inverse", "d_Fp12_inverse", [("b", "F12")], lambda E, i, o, r: want(E.tolib12(E.inv12(E.fromlib12(i[0]))), o[0]))
    # ------------------------------------------------------------- Frobenius
    for k, nm in ((1, "Frobenius"), (2, "Frobenius2"), (3, "Frobenius3")):
        op("Fp12::" + nm, "d_Fp12_" + nm, [("o", "F12"), ("i", "F12")],
           lambda E, i, o, r, k=k: want(E.tolib12(E.frob12(E.fromlib12(i[1]), k)), o[0]))
    op("Fp12::mapToCyclo", "d_Fp12_mapToCyclo", [("o", "F12"), ("b", "F12")],
       lambda E, i, o, r: want(E.tolib12(E.easy12(E.fromlib12(i[1]))), o[0]), alias=[{0: 0, 1: 1}])
    import l3ops
    l3ops.table(E, op)
    return L


def tabledict(E):
    return {(o.name, o.drv): o for o in table(E)}
