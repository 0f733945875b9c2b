"""Analysis tasks; each returns a runner.Res"""
import build, world, spec
from runner import Res
from values import *
from irx import locstr

WORLDS = {}


def W_(cfg):
    if cfg not in WORLDS:
        WORLDS[cfg] = world.load(cfg)
    return WORLDS[cfg]


def t_world(cfg):
    r = Res(("world", cfg))
    try:
        W_(cfg)
    except Violation as e:
        r.viol.append(("init", "%s: initialisation: %s" % (cfg, e.msg), "?"))
    return r


def value_op(cfg, op, drv):
    """the large operations: first by values (every intermediate reduced value is
    one unknown with a known residue); None if that does not decide"""
    if op.name not in ("Fp12::mul", "Fp12::square", "Fp6::mul"):
        return None
    import l3, ref
    E = ref.curve(cfg)
    w = W_(cfg)
    if E.p != w.I.p:
        return None
    sh = op.outs[0]
    fr = (lambda x: E.fromlib12(x)) if sh == "F12" else (lambda x: E.emb6(x))
    to = (lambda f: E.tolib12(f)) if sh == "F12" else (lambda f: [c for i in (0, 2, 4) for c in f[i]])
    if op.inout:
        a = [("b", sh)]; j = lambda E, i, o, r: l3.want(to(E.m12(fr(i[0]), fr(i[0]))), o[0])
    else:
        a = [("o", sh), ("i", sh), ("i", sh)]; j = lambda E, i, o, r: l3.want(to(E.m12(fr(i[1]), fr(i[2]))), o[0])
    ok = False
    try:
        l3.install(w, spec.ops(w.I, cfg[0] == "s"), op.level)
        q = l3.check_best(w, E, l3.L3(op.name, drv, a, j, noalias=[tuple(x) for x in op.noalias]))
        ok = not q.viol and not q.err and not q.unexp
    except Violation:
        pass
    if not ok:
        del WORLDS[cfg]
        return None
    return q


def t_op(cfg, name, drv):
    """one implementation of a specified operation in one configuration"""
    r = Res(("op", cfg, name, drv))
    w = W_(cfg)
    op = spec.ops(w.I, cfg[0] == "s")[name]
    if drv not in w.m.funcs:
        r.skip = "no such function in this tree"
        return r
    q = value_op(cfg, op, drv)
    if q is not None:
        r.paths = q.paths
        r.obl = r.dis = q.checks
        return r
    w = W_(cfg)
    tb = spec.ops(w.I, cfg[0] == "s")
    op = tb[name]
    ir = op.slot is not None and spec.slot_value(w, op.slot) in w.m.fbyaddr
    if drv != op.drv[0] or op.slot is None or ir:
        spec.install(w, [n for n in tb if tb[n].slot and tb[n].level < op.level], tb)
    q = spec.check_best(w, op, drv)
    r.paths = q.paths
    r.obl = q.checks + (0 if not q.viol else 1)
    r.dis = r.obl - len(q.viol) if not q.err else 0
    r.err = q.err; r.loc = getattr(q, "loc", None)
    for kind, msg, loc in q.viol:
        r.viol.append((kind, "[%s] %s" % (cfg, msg), loc))
    return r


_L3 = {}


def L3_(cfg):
    """world with the contracts of all slot functions and Fp-level models installed"""
    if cfg not in _L3:
        import l3, ref
        w = W_(cfg)
        tb = spec.ops(w.I, cfg[0] == "s")
        l3.install(w, tb)
        _L3[cfg] = (w, ref.curve(cfg))
    return _L3[cfg]


def t_l3(cfg, drv, part=None):
    """all cases of one function of the upper levels in one configuration"""
    import l3
    r = Res(("l3", cfg, drv) + ((part,) if part else ()))
    w, E = L3_(cfg)
    if E.p != w.I.p:
        r.viol.append(("value", "[%s] field characteristic differs from the documented one" % cfg, "?"))
        return r
    if drv not in w.m.funcs:
        r.skip = "no such function in this tree"
        return r
    ops = [o for o in l3.table(E) if o.drv == drv]
    for o, q in l3.check_group(w, E, ops):
        r.paths += q.paths
        r.obl += q.checks + (0 if not q.viol else 1)
        r.dis += q.checks + (0 if not q.viol else 1) - len(q.viol) if not q.err else 0
        if q.err and not r.err:
            r.err = q.err; r.loc = q.loc
        for kind, msg, loc in q.viol:
            r.viol.append((kind, "[%s] %s" % (cfg, msg), loc))
    return r


def t_inv(cfg):
    """Fp::inv: the generated loop by induction, the wrapper for every shift count"""
    import invloop, l3, ref
    from dom import pconst, psub, padd, pscale, FV
    r = Res(("inv", cfg))
    w = W_(cfg)
    L = invloop.Loop(w)
    try:
        L.entry()
        L.verify(r)
    except Violation as e:
        r.viol.append((e.kind, "[%s] Fp::preInv: %s" % (cfg, e.msg), str(e.loc)))
    finally:
        w.I.code.cut = None
    if r.viol:
        r.viol = [(k, m if m[0] == "[" else "[%s] %s" % (cfg, m), l) for k, m, l in r.viol]
        return r
    # the wrapper, with preInv replaced by what has just been proved
    del WORLDS[cfg]
    w = W_(cfg)
    I = w.I; D = I.D; p = I.p
    l3.install(w, spec.ops(w.I, cfg[0] == "s"), 1)
    for n in [n for d, n in w.m.dem.items() if d.startswith("mie::Fp::inv(")]:
        I.models.pop(n, None)
    a = spec.slot_value(w, "mie::Fp::preInv")
    case = [None]

    def pre(S, args, loc):
        x = I.rd(S, args[1], 4, loc)
        k, zero = case[0]
        if zero:
            v = FV(pconst(2 * p), 2 * p, 2 * p, 4)
        else:
            x0 = I.ring(x.p, S)
            v = I.newval("r", 0, 2 * p, 4, pow(2, k, p) * pow(x0, -1, p) % p)
        I.wr(S, args[0], v, loc)
        return k
    I.code.summ[a] = pre
    I.l3 = True; I.eager = True
    E = ref.curve(cfg)
    kmax = 2 * p.bit_length() + 1
    for same in (False, True):
        for k in [None] + list(range(kmax)):
            case[0] = (k or 0, k is None)
            S = w.S.fork()
            I.l3base = len(D.atoms)
            D.asm = {}; D.facts = spec.Facts(); S.asm = {}; S.facts = D.facts; S.user = dict(S.user)
            x = S.new(32, "x"); o = x if same else S.new(32, "out")
            v = FV({}, 0, 0, 4) if k is None else I.newval("x", 0, p - 1, 4)
            I.wr(S, x, v)
            xr = 0 if k is None else I.ring(v.p, S)
            exp = 0 if k is None else pow(xr * E.Ri % p, -1, p) * E.R % p
            r.obl += 1
            what = "Fp::inv of %s%s" % ("zero" if k is None else "an element with shift count %d" % k, ", in place" if same else "")
            try:
                outs = w.R.call(S, "d_Fp_inv", [o, x])
                ok = len(outs) == 1 and outs[0].result[0] == "ret"
                T = outs[0]
                q = I.rd(T, o)
            except Violation as e:
                r.viol.append((e.kind, "[%s] %s: %s" % (cfg, what, e.msg), str(e.loc)))
                continue
            r.paths += 1
            if not ok or q.lo < 0 or q.hi >= p or I.ring(q.p, T) != exp:
                r.viol.append(("value", "[%s] %s: the result is not the inverse" % (cfg, what), "include/zm2.h: Fp::inv"))
                if len(r.viol) > 4:
                    return r
            else:
                r.dis += 1
    return r


def t_scal(cfg, drv, kind, n, sign, g, part=0, parts=1):
    """scalar multiplication or power: every scalar of n words"""
    import scal
    r = Res(("scal", cfg, drv, kind, n, sign, g, part, parts))
    w = W_(cfg)
    if drv not in w.m.funcs:
        r.skip = "no such function in this tree"
        return r
    scal.prepare(w)
    G = scal.ecgroup(w, int(g)) if g in "12" else scal.fieldgroup(w, g)
    ls = scal.leads(kind, n, sign)
    if "pow" in drv:
        al = [False]
    elif "eq_int" in drv:
        al = [True]
    else:
        al = [False, True]
    scal.check(w, r, cfg, G, drv, kind, n, sign, al, ls[part::parts] if part >= 0 else [ls[0], ls[-1]])
    return r


def t_vdiv(cfg, g, sel):
    """division of multi-precision integers by two or more words"""
    import vint, vdiv
    r = Res(("vdiv", cfg, g) + tuple(sel))
    w = W_(cfg)
    E = vint.Env(w)
    core, app, head = vdiv.find(w)
    if g == "approx":
        vdiv.approx(E, r, app)
    elif g == "loop":
        L = vdiv.Loop(E, core, app, head)
        for xn, yn in sel:
            for h in (0, 1):
                L.check(r, xn, yn, h)
            if len(r.viol) >= 4:
                break
    else:
        E.I.models[core] = vdiv.model_core(E)
        for c in vint.cases((g, sel)):
            if c.drv not in w.m.funcs:
                r.skip = "no such function in this tree"
                continue
            vint.run_case(E, r, c, g.startswith("s_"))
            if len(r.viol) >= 4:
                break
    return r


def t_vint(cfg, g, sel):
    """multi-precision integers: one group of operations for every word count in sel"""
    import vint
    r = Res(("vint", cfg, g) + tuple(sel))
    w = W_(cfg)
    E = vint.Env(w)
    for c in vint.cases((g, sel)):
        if c.drv not in w.m.funcs:
            r.skip = "no such function in this tree"
            continue
        vint.run_case(E, r, c, g.startswith("s_"))
        if len(r.viol) >= 4:
            break
    return r


def t_effect(cfg):
    """writes to shared or read-only state by any operation"""
    import effect
    r = Res(("effect", cfg))
    effect.run(W_(cfg), r, cfg)
    return r


def t_frame(cfg, names):
    """memory written by the generated routines: only operands and their stack frames"""
    r = Res(("frame", cfg, names))
    w = W_(cfg)
    tb = spec.ops(w.I, cfg[0] == "s")
    c = w.I.code
    for name in names:
        op = tb[name]
        if op.slot is None or spec.slot_value(w, op.slot) in w.m.fbyaddr:
            continue
        c.written = {}; c.base = set(w.S.mem)
        q = value_op(cfg, op, op.drv[0])
        if q is None:
            w = W_(cfg); c = w.I.code
            tb = spec.ops(w.I, cfg[0] == "s")
            c.written = {}; c.base = set(w.S.mem)
            q = spec.check_best(w, tb[name], op.drv[0])
        r.obl += 1
        r.paths += q.paths
        if q.err and not q.viol and not r.err:
            r.err = q.err; r.loc = getattr(q, "loc", None)
        for k, loc in sorted(c.written.items()):
            r.viol.append(("global", "[%s] the routine generated for %s writes %s, which is shared by all threads" % (cfg, name, w.S.mem[k].name), locstr(w.m, loc)))
        r.dis += int(not c.written and not q.err)
    return r


def t_conv(cfg, items):
    """conversions between integers and field elements"""
    import conv
    r = Res(("conv", cfg, items))
    K = conv.Conv(W_(cfg), r, cfg)
    for i in items:
        getattr(K, i)()
    return r


def t_state(cfg):
    """parameters left by the initialisation"""
    import initial, ref
    r = Res(("state", cfg))
    initial.check(W_(cfg), ref.curve(cfg), r, cfg)
    return r


def t_accepts(cfg):
    """parameters the initialisation accepts"""
    import initial
    r = Res(("accepts", cfg))
    initial.accepts(W_(cfg), r, cfg[0] == "s")
    return r
