"""Binary extended Euclid (Fp::preInv, generated code): the loop is cut at its
head, the loop-carried locations are found by iteration, and every path of one
round is interpreted with unconstrained limbs."""
import spec
from dom import *
from dom import W, FV, UNDEF, AnalysisError, pconst, psub, padd, pscale
from irx import Violation, PathEnd, SH, OFFM
from x64 import Machine, NeedFork, RSP, SENT, Opaque, R64

M64 = (1 << 64) - 1


def heads(w, addr):
    """targets of back edges in the code reachable from addr"""
    x = w.I.code
    S = w.S
    out = set()
    seen = {}
    stack = [(addr, 0)]
    path = []
    # iterative DFS
    def succ(ip):
        n, mn, ops, txt = x.decode(S, ip)
        if mn == "ret":
            return []
        if mn == "jmp":
            return [ops[0][1]] if ops[0][0] == "i" else []
        if mn.startswith("j"):
            return [ip + n, ops[0][1]]
        return [ip + n]
    st = [(addr, iter(succ(addr)))]
    seen[addr] = 1
    while st:
        ip, it = st[-1]
        for q in it:
            if q not in seen:
                seen[q] = 1
                st.append((q, iter(succ(q))))
                break
            if seen[q] == 1:
                out.add(q)
        else:
            seen[ip] = 2
            st.pop()
    return out


class Cut(Exception):
    pass


class CM(Machine):
    """machine that stops at the loop head"""

    def atcut(self, ip):
        if self.skip:
            self.skip = False
            return False
        raise Cut()


def clone(m, S):
    c = CM(m.x, S)
    c.skip = True
    c.r = list(m.r); c.xmm = list(m.xmm)
    c.cf, c.res, c.of, c.cmpops = m.cf, m.res, m.of, m.cmpops
    c.calldepth = m.calldepth; c.wlog = [{} for _ in m.wlog]
    c.stack = m.stack; c.entry_rsp = m.entry_rsp; c.calleevals = m.calleevals
    c.ip = m.ip
    return c


def explore(I, mk):
    """mk() -> (machine, state) ready to run; returns [(decisions, outcome, machine, state)]"""
    leaves = []
    stack = [([], None, None)]
    while stack:
        dec, asm, facts = stack.pop()
        m, S = mk()
        if dec:
            S.asm = asm; S.facts = facts
            I.D.asm = asm; I.D.facts = facts
            S.resubst()
            if not I.assume(S, *dec[-1]):
                continue
        I.D.asm = S.asm; I.D.facts = S.facts
        asm, facts = S.asm, S.facts
        try:
            try:
                m.run()
                out = "ret"
            except Cut:
                out = "loop"
            S.asm = I.D.asm; S.facts = I.D.facts
            leaves.append((dec, out, m, S))
        except NeedFork as e:
            for v in e.values:
                stack.append((dec + [(e.atom, v)], asm, facts))
        if len(leaves) + len(stack) > 200:
            raise AnalysisError("too many paths in one round of the loop")
    return leaves


def lockeys(m, S):
    """names of the machine locations that may be loop carried"""
    k = [("r", i) for i in range(16) if i != RSP] + [("x", i, j) for i in range(16) for j in (0, 1)]
    o = S.mem[m.stack >> SH]
    base = m.stack
    for off in sorted(o.cells):
        a = base + off
        if m.r[RSP] <= a < m.entry_rsp:
            k.append(("m", a))
    return k


def lget(m, S, k):
    if k[0] == "r":
        return m.r[k[1]]
    if k[0] == "x":
        v = m.xmm[k[1]]
        return v[k[2]] if type(v) is tuple else UNDEF
    o = S.mem[k[1] >> SH]
    c = o.cells.get(k[1] & OFFM)
    if c is None:
        return UNDEF
    return c[1] if c[0] == 8 else S.ld(k[1], 8)


def lset(m, S, k, v):
    if k[0] == "r":
        m.r[k[1]] = v
    elif k[0] == "x":
        t = m.xmm[k[1]]
        t = list(t) if type(t) is tuple else [UNDEF, UNDEF]
        t[k[2]] = v
        m.xmm[k[1]] = tuple(t)
    else:
        S.st(k[1], 8, v, 0)


def same(D, a, b):
    if a is b:
        return True
    if isinstance(a, (W, int)) and isinstance(b, (W, int)) and type(a) is not bool:
        d = psub(D.P(a), D.P(b))
        return not d
    return a == b if type(a) is type(b) else False


class Loop:
    def __init__(self, w):
        self.w = w; I = self.I = w.I; D = self.D = I.D
        I.l3 = False; I.eager = False
        self.addr = spec.slot_value(w, "mie::Fp::preInv")
        hs = heads(w, self.addr)
        if len(hs) != 1:
            raise AnalysisError("Fp::preInv: %d loops found, one expected" % len(hs))
        self.head = hs.pop()
        I.code.cut = {self.head}

    def entry(self):
        """state on first arrival at the loop head"""
        I, D, w = self.I, self.D, self.w
        self.S0 = S = w.S.fork()
        D.asm = {}; D.facts = spec.Facts(); S.asm = {}; S.facts = D.facts
        S.user = dict(S.user)
        self.xo = S.new(32, "x"); self.ro = S.new(32, "r")
        p = I.p
        self.x = [D.var("x%d" % i, 0, M64 if i < 3 else p >> 192) for i in range(4)]
        for i in range(4):
            S.st(self.xo + 8 * i, 8, self.x[i], 0)

        def mk():
            T = S.fork()
            m = CM(I.code, T)
            m.skip = False
            m.ip = self.addr
            m.start(self.addr, [self.ro, self.xo])
            return m, T
        ls = explore(I, mk)
        if len(ls) != 1 or ls[0][1] != "loop":
            raise AnalysisError("Fp::preInv: %d paths reach the loop" % len(ls))
        self.m0, self.E0 = ls[0][2], ls[0][3]

    def round(self, rng):
        """all paths of one round from the head; carried: {location: atom word}"""
        I, D = self.I, self.D

        def mk():
            T = self.E0.fork()
            T.asm = {}; T.facts = self.S0.facts
            m = clone(self.m0, T)
            for k in self.carried:
                lset(m, T, k, self.word[k])
            D.asm = T.asm; D.facts = T.facts
            return m, T
        for k in self.carried:
            if k not in self.word or rng.get(k) != self.rng.get(k):
                lo, hi = rng.get(k, (0, M64))
                self.word[k] = D.var("h%s_%d" % ("_".join(map(str, k)), len(D.atoms)), lo, hi)
                self.rng[k] = rng.get(k)
        return explore(I, mk)

    def fix(self):
        """loop-carried locations"""
        D = self.D
        self.carried = []; self.word = {}; self.rng = {}
        self.dead = set()
        while True:
            ls = self.round({})
            add = []
            for dec, out, m, S in ls:
                if out != "loop":
                    continue
                for k in lockeys(m, S):
                    if k in self.carried or k in add:
                        continue
                    if not same(D, lget(m, S, k), lget(self.m0, self.E0, k)):
                        add.append(k)
            if not add:
                return ls
            for k in add:
                # a location undefined on entry stays undefined (it must be written before use)
                if lget(self.m0, self.E0, k) is UNDEF:
                    self.dead.add(k)
                    self.word[k] = UNDEF; self.rng[k] = None
                self.carried.append(k)

    def roles(self, ls):
        I, D = self.I, self.D
        p = I.p
        ent = {k: lget(self.m0, self.E0, k) for k in self.carried}
        live = [k for k in self.carried if k not in self.dead and isinstance(self.word.get(k), W)]

        def find(v, what):
            c = [k for k in live if same(D, ent[k], v)]
            if len(c) != 1:
                raise AnalysisError("Fp::preInv: %d loop variables start as %s, one expected" % (len(c), what))
            return c[0]
        U = [find((p >> 64 * i) & M64, "limb %d of the modulus" % i) for i in range(4)]
        V = [find(self.x[i], "limb %d of the operand" % i) for i in range(4)]
        of = {}
        for k in live:
            (m, c), = self.word[k].p.items()
            of[m[0]] = k
        pred = {}
        for dec, out, m, S in ls:
            if out != "loop":
                continue
            for k in live:
                if k in U or k in V:
                    continue
                v = lget(m, S, k)
                if not isinstance(v, W):
                    continue
                s = set()
                for mm, c in v.p.items():
                    for i in mm:
                        a = D.atoms[i]
                        if a.kind == "floor" and c in (1, -1):
                            for m2 in a.defn[0]:
                                for j in m2:
                                    if j in of and of[j] != k:
                                        s.add(of[j])
                if s:
                    pred[k] = pred[k] & s if k in pred else s
        chains = []
        rest = [k for k in live if k not in U and k not in V]
        for k in rest:
            if len(pred.get(k, ())) > 1:
                raise AnalysisError("Fp::preInv: carry chain of the loop variables not recognised")
        for k in rest:
            if k not in pred:
                ch = [k]
                while True:
                    n = [q for q in rest if pred.get(q) == {ch[-1]}]
                    if len(n) != 1:
                        break
                    ch.append(n[0])
                chains.append(ch)
        four = [c for c in chains if len(c) == 4]
        s = [c for c in four if ent[c[0]] == 1 and all(ent[q] == 0 for q in c[1:])]
        r = [c for c in four if all(ent[q] == 0 for q in c)]
        if len(s) != 1 or len(r) != 1:
            raise AnalysisError("Fp::preInv: the two cofactors were not recognised among the loop variables")
        K = [k for k in rest if k not in s[0] and k not in r[0] and ent[k] == 0]
        return U, V, r[0], s[0], K

    def big(self, m, S, ks):
        D = self.D
        out = {}
        for i, k in enumerate(ks):
            out = padd(out, pscale(D.P(lget(m, S, k)), 1 << 64 * i))
        return out

    def verify(self, R):
        """obligations of one round; R is a runner.Res"""
        I, D = self.I, self.D
        p = I.p
        U, V, r, s, K = self.roles(self.fix())
        half = (1 << 63) - 1
        w = {}
        for k in self.carried:
            w[k] = UNDEF
        for nm, ks, hi in (("u", U, p), ("v", V, p), ("r", r, 2 * p), ("s", s, p)):
            for i, k in enumerate(ks):
                if i == 0 and nm in "uv":
                    a = D.var(nm + "h", 0, half); b = D.var(nm + "0", 0, 1)
                    q = padd(pscale(a.p, 2), b.p)
                    w[k] = W(q, 0, M64)
                    if nm == "u":
                        bu = b
                    else:
                        bv = b
                else:
                    w[k] = D.var("%s%d" % (nm, i), 0, M64 if i < 3 else hi >> 192)
        kmax = 2 * p.bit_length() + 2
        for k in K:
            w[k] = D.var("k", 0, kmax)
        self.word = w

        def val(ks):
            out = {}
            for i, k in enumerate(ks):
                out = padd(out, pscale(D.P(w[k]), 1 << 64 * i))
            return out
        bU, bV, bR, bS = val(U), val(V), val(r), val(s)
        facts = [(bU, 1, p), (bV, 0, p), (bR, 0, 2 * p), (psub(pconst(2 * p), bR), 0, 2 * p), (bS, 0, p), (psub(pconst(p), bU), 0, p - 1)]

        def mk():
            T = self.E0.fork()
            T.asm = {}; T.facts = self.F
            m = clone(self.m0, T)
            for k in self.carried:
                lset(m, T, k, w[k])
            D.asm = T.asm; D.facts = T.facts
            return m, T
        self.F = self.S0.facts.derive(facts)
        ls = explore(I, mk)
        names = {"U": bU, "V": bV, "R": bR, "S": bS}
        steps = {
            "halve u": (bU, pscale(bV, 2), bR, pscale(bS, 2)),
            "halve v": (pscale(bU, 2), bV, pscale(bR, 2), bS),
            "v minus u": (pscale(bU, 2), psub(bV, bU), pscale(bR, 2), padd(bS, bR)),
            "u minus v": (psub(bU, bV), pscale(bV, 2), padd(bR, bS), pscale(bS, 2))}
        seen = set()

        def zero(q):
            q = D.subst(q, D.asm)
            if not q:
                return True
            q = D.expand(q)
            if not q:
                return True
            l, h = D.rng2(q)
            return l == h == 0
        exits = 0
        for dec, out, m, S in ls:
            D.asm = S.asm; D.facts = S.facts
            what = "round ending in %s, case %s" % ("exit" if out == "ret" else "the next round", "/".join(str(v) for a, v in dec))
            R.paths += 1
            if out == "loop":
                new = (pscale(self.big(m, S, U), 2), pscale(self.big(m, S, V), 2), self.big(m, S, r), self.big(m, S, s))
                R.obl += 6
                hit = None
                for nm, t in steps.items():
                    if all(zero(psub(a, b)) for a, b in zip(new, t)):
                        hit = nm
                        break
                if hit is None:
                    R.viol.append(("value", "Fp::preInv: a %s is not a step of the binary extended Euclidean algorithm" % what, "src/zm2.cpp (code at %#x)" % self.head))
                    continue
                seen.add(hit)
                R.dis += 4
                if hit == "u minus v" and D.rng2(D.subst(psub(bU, bV), D.asm))[0] < 1:
                    R.viol.append(("value", "Fp::preInv: u may become zero in a %s" % what, "src/zm2.cpp"))
                    continue
                R.dis += 1
                kk = [k for k in K if zero(psub(D.P(lget(m, S, k)), padd(w[k].p, pconst(1))))] if K else []
                if not kk:
                    R.viol.append(("value", "Fp::preInv: the shift counter is not increased by one in a %s" % what, "src/zm2.cpp"))
                    continue
                K = kk
                R.dis += 1
            else:
                exits += 1
                R.obl += 4
                if not all(zero(D.P(w[k])) for k in V):
                    R.viol.append(("value", "Fp::preInv: the loop is left although v may be nonzero", "src/zm2.cpp")); continue
                R.dis += 1
                try:
                    rax = m.finish()
                    o = {}
                    for i in range(4):
                        o = padd(o, pscale(D.P(S.ld(self.ro + 8 * i, 8, 0)), 1 << 64 * i))
                except Violation as e:
                    R.viol.append((e.kind, "Fp::preInv: " + e.msg, "src/zm2.cpp")); continue
                R.dis += 1
                if not zero(psub(o, psub(pconst(2 * p), bR))):
                    R.viol.append(("value", "Fp::preInv: the result is not 2p - r", "src/zm2.cpp")); continue
                R.dis += 1
                if not K or not any(zero(psub(D.P(rax), w[k].p)) for k in K):
                    R.viol.append(("value", "Fp::preInv: the returned count is not the number of halvings", "src/zm2.cpp")); continue
                R.dis += 1
                for i in range(4):
                    if not same(D, S.ld(self.xo + 8 * i, 8, 0), self.x[i]):
                        R.viol.append(("input", "Fp::preInv: the operand is modified", "src/zm2.cpp"))
        R.obl += 1
        if exits != 1:
            R.viol.append(("value", "Fp::preInv: the loop has %d exits, one expected" % exits, "src/zm2.cpp"))
        else:
            R.dis += 1
